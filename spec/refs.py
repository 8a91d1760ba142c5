"""Which tag and external-documentation references a document may contain.

Executable predicates over a document (attributes named as in the Python
models); same text natively (oracle) and in the proof engine.
"""


def is_ref(x):
    return type(x).__name__ == "Reference"


def values(m):
    """entries of an optional patterned map"""
    if m is None:
        return {}.values()
    return m.root.values()


def items(x):
    if x is None:
        return ()
    return x


# ------------------------------------------------------------------------ tags
TAGS = "#/components/tags/"


def tag_ref_ok(spec, r):
    s = r.ref
    if not s.startswith("#"):
        return True
    if not s.startswith(TAGS):
        return False
    c = spec.components
    if c is None or c.tags is None:
        return False
    return s[len(TAGS):] in c.tags.root


def tags_ok(spec, tags):
    if tags is None:
        return True
    for t in tags:
        if is_ref(t) and not tag_ref_ok(spec, t):
            return False
    return True


def traits_tags_ok(spec, o):
    if o.traits is None:
        return True
    for t in o.traits:
        if not is_ref(t) and not tags_ok(spec, t.tags):
            return False
    return True


def each_tags_ok(spec, m):
    if m is None:
        return True
    for o in m.root.values():
        if not is_ref(o) and not tags_ok(spec, o.tags):
            return False
    return True


def each_traits_tags_ok(spec, m):
    if m is None:
        return True
    for o in m.root.values():
        if not is_ref(o) and not traits_tags_ok(spec, o):
            return False
    return True


def channel_messages_tags_ok(spec, m):
    if m is None:
        return True
    for c in m.root.values():
        if not is_ref(c) and not each_tags_ok(spec, c.messages):
            return False
    return True


def channel_messages_traits_tags_ok(spec, m):
    if m is None:
        return True
    for c in m.root.values():
        if not is_ref(c) and not each_traits_tags_ok(spec, c.messages):
            return False
    return True


def component_tags_ok(spec, m):
    if m is None:
        return True
    for t in m.root.values():
        if is_ref(t) and not tag_ref_ok(spec, t):
            return False
    return True


TAG_LOCATIONS = [
    ("info", lambda s: tags_ok(s, s.info.tags)),
    ("servers", lambda s: each_tags_ok(s, s.servers)),
    ("channels", lambda s: each_tags_ok(s, s.channels)),
    ("channel messages", lambda s: channel_messages_tags_ok(s, s.channels)),
    ("operations", lambda s: each_tags_ok(s, s.operations)),
    ("operation traits", lambda s: each_traits_tags_ok(s, s.operations)),
    ("channel message traits", lambda s: channel_messages_traits_tags_ok(s, s.channels)),
    ("components messages", lambda s: s.components is None or each_tags_ok(s, s.components.messages)),
    ("components channels", lambda s: s.components is None or each_tags_ok(s, s.components.channels)),
    ("components operations", lambda s: s.components is None or each_tags_ok(s, s.components.operations)),
    ("components servers", lambda s: s.components is None or each_tags_ok(s, s.components.servers)),
    ("components operationTraits", lambda s: s.components is None or each_tags_ok(s, s.components.operation_traits)),
    ("components messageTraits", lambda s: s.components is None or each_tags_ok(s, s.components.message_traits)),
    ("components channel messages", lambda s: s.components is None or channel_messages_tags_ok(s, s.components.channels)),
    ("components tags", lambda s: s.components is None or component_tags_ok(s, s.components.tags)),
    ("components operations' traits", lambda s: s.components is None or each_traits_tags_ok(s, s.components.operations)),
    ("components messages' traits", lambda s: s.components is None or each_traits_tags_ok(s, s.components.messages)),
    ("components channel messages' traits", lambda s: s.components is None or channel_messages_traits_tags_ok(s, s.components.channels)),
]


def tag_refs_ok(spec):
    for name, f in TAG_LOCATIONS:
        if not f(spec):
            return False
    return True



# --------------------------------------------------------------- external docs
DOCS = "#/components/externalDocs/"


def docs_ref_ok(spec, r):
    s = r.ref
    if not s.startswith("#"):
        return True
    if not s.startswith(DOCS):
        return False
    c = spec.components
    if c is None or c.external_docs is None:
        return False
    return s[len(DOCS):] in c.external_docs.root


def docs_ok(spec, o):
    """the externalDocs member of an object that has one"""
    d = o.external_docs
    if d is not None and is_ref(d):
        return docs_ref_ok(spec, d)
    return True


def schema_docs_ok(spec, s):
    """a headers / payload member: only Schema objects carry externalDocs"""
    if s is None or type(s).__name__ != "Schema":
        return True
    return docs_ok(spec, s)


def tags_docs_ok(spec, tags):
    if tags is None:
        return True
    for t in tags:
        if not is_ref(t) and not docs_ok(spec, t):
            return False
    return True


def each(spec, m, f):
    """f holds of every inline entry of an optional patterned map"""
    if m is None:
        return True
    for o in m.root.values():
        if not is_ref(o) and not f(spec, o):
            return False
    return True


def each_item(spec, xs, f):
    if xs is None:
        return True
    for o in xs:
        if not is_ref(o) and not f(spec, o):
            return False
    return True


def headers_docs_ok(spec, o):
    return schema_docs_ok(spec, o.headers)


def payload_docs_ok(spec, o):
    return schema_docs_ok(spec, o.payload)


def own_tags_docs_ok(spec, o):
    return tags_docs_ok(spec, o.tags)


def traits_docs_ok(spec, o):
    return each_item(spec, o.traits, docs_ok)


def traits_headers_docs_ok(spec, o):
    return each_item(spec, o.traits, headers_docs_ok)


def traits_tags_docs_ok(spec, o):
    return each_item(spec, o.traits, own_tags_docs_ok)


def each_message(spec, channels, f):
    return each(spec, channels, lambda s, c: each(s, c.messages, f))


def component_schema_docs_ok(spec, m):
    if m is None:
        return True
    for s in m.root.values():
        if type(s).__name__ == "Schema" and not docs_ok(spec, s):
            return False
    return True


def component_docs_ok(spec, m):
    if m is None:
        return True
    for d in m.root.values():
        if is_ref(d) and not docs_ref_ok(spec, d):
            return False
    return True


DOCS_LOCATIONS = [
    ("info", lambda s: docs_ok(s, s.info)),
    ("info tags", lambda s: tags_docs_ok(s, s.info.tags)),
    ("servers", lambda s: each(s, s.servers, docs_ok)),
    ("channels", lambda s: each(s, s.channels, docs_ok)),
    ("channel messages", lambda s: each_message(s, s.channels, docs_ok)),
    ("channel message headers", lambda s: each_message(s, s.channels, headers_docs_ok)),
    ("channel message payload", lambda s: each_message(s, s.channels, payload_docs_ok)),
    ("channel message tags", lambda s: each_message(s, s.channels, own_tags_docs_ok)),
    ("channel message traits", lambda s: each_message(s, s.channels, traits_docs_ok)),
    ("channel message trait headers", lambda s: each_message(s, s.channels, traits_headers_docs_ok)),
    ("channel message trait tags", lambda s: each_message(s, s.channels, traits_tags_docs_ok)),
    ("operations", lambda s: each(s, s.operations, docs_ok)),
    ("operation tags", lambda s: each(s, s.operations, own_tags_docs_ok)),
    ("operation traits", lambda s: each(s, s.operations, traits_docs_ok)),
    ("operation trait tags", lambda s: each(s, s.operations, traits_tags_docs_ok)),
    ("components channels", lambda s: s.components is None or each(s, s.components.channels, docs_ok)),
    ("components externalDocs", lambda s: s.components is None or component_docs_ok(s, s.components.external_docs)),
    ("components messages", lambda s: s.components is None or each(s, s.components.messages, docs_ok)),
    ("components message headers", lambda s: s.components is None or each(s, s.components.messages, headers_docs_ok)),
    ("components message payload", lambda s: s.components is None or each(s, s.components.messages, payload_docs_ok)),
    ("components messageTraits", lambda s: s.components is None or each(s, s.components.message_traits, docs_ok)),
    ("components messageTrait headers", lambda s: s.components is None or each(s, s.components.message_traits, headers_docs_ok)),
    ("components operations", lambda s: s.components is None or each(s, s.components.operations, docs_ok)),
    ("components operationTraits", lambda s: s.components is None or each(s, s.components.operation_traits, docs_ok)),
    ("components servers", lambda s: s.components is None or each(s, s.components.servers, docs_ok)),
    ("components tags", lambda s: s.components is None or each(s, s.components.tags, docs_ok)),
    ("components schemas", lambda s: s.components is None or component_schema_docs_ok(s, s.components.schemas)),
    ("components channel messages", lambda s: s.components is None or each_message(s, s.components.channels, docs_ok)),
    ("components channel message traits", lambda s: s.components is None or each_message(s, s.components.channels, traits_docs_ok)),
    ("components channel message trait tags", lambda s: s.components is None or each_message(s, s.components.channels, traits_tags_docs_ok)),
    ("components operations' traits", lambda s: s.components is None or each(s, s.components.operations, traits_docs_ok)),
    ("components operations' trait tags", lambda s: s.components is None or each(s, s.components.operations, traits_tags_docs_ok)),
    ("components messages' traits", lambda s: s.components is None or each(s, s.components.messages, traits_docs_ok)),
    ("components messages' trait tags", lambda s: s.components is None or each(s, s.components.messages, traits_tags_docs_ok)),
]


def docs_refs_ok(spec):
    for name, f in DOCS_LOCATIONS:
        if not f(spec):
            return False
    return True
