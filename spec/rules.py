"""Semantic rules of AsyncAPI 3.0 objects, as executable predicates.

Each predicate takes one object (attributes named as in the Python models) and
says whether its *combination* of members is legal; member types are the
business of the shape table.  The same text is executed natively (oracle for
replays) and interpreted by the proof engine (right-hand side of the class
contracts), so it stays inside the engine's language subset.
"""
import re

EXTENSION = re.compile(r"x-[\w\d\.\x2d_]+")
KEY = re.compile(r"[A-Za-z0-9_\-]+")


def extensions(o):
    extra = o.model_extra
    if extra is None:
        return True
    for key in extra:
        if EXTENSION.fullmatch(key) is None:
            return False
    return True


def patterned(o):
    for key in o.root:
        if KEY.fullmatch(key) is None:
            return False
    return True


def security_scheme(o):
    t = o.type_
    if t == "apiKey":
        if o.in_ != "user" and o.in_ != "password":
            return False
    if t == "httpApiKey":
        if o.name is None:
            return False
        if o.in_ != "query" and o.in_ != "header" and o.in_ != "cookie":
            return False
    if t == "http" and o.scheme is None:
        return False
    if t == "oauth2" and o.flows is None:
        return False
    if t == "openIdConnect" and o.open_id_connect_url is None:
        return False
    if o.bearer_format is not None and not (t == "http" and o.scheme == "bearer"):
        return False
    if o.scopes is not None and t != "oauth2" and t != "openIdConnect":
        return False
    return True


def oauth_flows(o):
    if o.implicit is not None and o.implicit.authorization_url is None:
        return False
    if o.password is not None and o.password.token_url is None:
        return False
    if o.client_credentials is not None and o.client_credentials.token_url is None:
        return False
    c = o.authorization_code
    if c is not None and (c.authorization_url is None or c.token_url is None):
        return False
    return True


VERSION = re.compile(r"0*3\.[0-9]+\.[0-9]+(-[\w.\-]+)?")


def version(s):
    return VERSION.fullmatch(s) is not None


def document(o):
    return version(o.asyncapi)


ADDRESS_EXPRESSION = re.compile(r"\{[^}]+\}")


def channel(o):
    if o.parameters is None:
        return True
    if o.address is None:
        return False
    return ADDRESS_EXPRESSION.search(o.address) is not None


def message_example(o):
    return o.headers is not None or o.payload is not None


def correlation_id(o):
    return o.location.startswith("$message.")


EMAIL = re.compile(r"[A-Za-z0-9._%+\-]+@[A-Za-z0-9.\-]+\.[A-Za-z]{2,}")


def email(s):
    return ".." not in s and EMAIL.fullmatch(s) is not None


def amqp_channel(o):
    if o.is_ == "queue":
        return o.queue is not None and o.exchange is None
    return o.exchange is not None and o.queue is None


def amqp_operation(o):
    return o.expiration is None or o.expiration >= 0


def solace_destination(o):
    if o.destination_type == "queue":
        return o.queue is not None and o.topic is None
    return o.topic is not None and o.queue is None


def solace_operation(o):
    if isinstance(o.priority, int):
        return 0 <= o.priority and o.priority <= 255
    return True


def ibmmq_server(o):
    n = o.heart_beat_interval
    return n is None or (n >= 0 and n <= 999999)


def ibmmq_channel(o):
    if o.queue is not None and o.topic is not None:
        return False
    if o.destination_type == "queue" and o.queue is None:
        return False
    n = o.max_msg_length
    return n is None or (n >= 0 and n <= 104857600)


def ibmmq_message(o):
    if o.headers is not None and o.type != "binary":
        return False
    return o.expiry is None or o.expiry >= 0


def kafka_server(o):
    return o.schema_registry_vendor is None or o.schema_registry_url is not None


def kafka_channel(o):
    if o.partitions is not None and o.partitions <= 0:
        return False
    return o.replicas is None or o.replicas > 0


# class name -> rule
RULES = {
    "SecurityScheme": security_scheme,
    "OAuthFlows": oauth_flows,
    "AsyncAPI3": document,
    "Channel": channel,
    "MessageExample": message_example,
    "CorrelationID": correlation_id,
    "AMQPChannelBindings": amqp_channel,
    "AMQPOperationBindings": amqp_operation,
    "SolaceDestination": solace_destination,
    "SolaceOperationBindings": solace_operation,
    "IBMMQServerBindings": ibmmq_server,
    "IBMMQChannelBindings": ibmmq_channel,
    "IBMMQMessageBindings": ibmmq_message,
    "KafkaServerBindings": kafka_server,
    "KafkaChannelBindings": kafka_channel,
}
