"""C12: external documentation references."""
from asyncapi3.validators import ExternalDocsRefValidator
from props.refcheck import *
from spec import refs as R

LEVEL = "proof"
REPLAY_ONLY = True
NOTE = ("Proved for all documents: soundness of every validation step, completeness for every listed location, and the "
        "reference check itself for all strings and component maps. Trusts pyvc, z3; free-form members hold JSON data.")
RULE = "a document with references at the listed locations; non-trivial when it has at least one local reference"
BOUNDED = "none for the proved obligations; an undecided one is covered by the concrete documents (labelled undecided)"
TRUSTED = []
ASSUMPTIONS = ["members of type Any hold JSON data, not instances of document classes",
               "the document was accepted by the library (fields have their declared types)"]
SHRINK = ("doc",)

def place(doc, ref):
    doc = dict(doc)
    doc["info"] = dict(doc.get("info") or {"title": "t", "version": "1"}, externalDocs=ref)
    return doc


PATHS = {
    "info": "info=i externalDocs",
    "info tags": "info=i tags +T externalDocs",
    "servers": "servers *S externalDocs",
    "channels": "channels *C externalDocs",
    "channel messages": "channels *C messages *M externalDocs",
    "channel message headers": "channels *C messages *M headers=H externalDocs",
    "channel message payload": "channels *C messages *M payload=H externalDocs",
    "channel message tags": "channels *C messages *M tags +T externalDocs",
    "channel message traits": "channels *C messages *M traits +t externalDocs",
    "channel message trait headers": "channels *C messages *M traits +t headers=H externalDocs",
    "channel message trait tags": "channels *C messages *M traits +t tags +T externalDocs",
    "operations": "operations *O externalDocs",
    "operation tags": "operations *O tags +T externalDocs",
    "operation traits": "operations *O traits +t externalDocs",
    "operation trait tags": "operations *O traits +t tags +T externalDocs",
    "components channels": "components channels *C externalDocs",
    "components externalDocs": "components externalDocs *D",
    "components messages": "components messages *M externalDocs",
    "components message headers": "components messages *M headers=H externalDocs",
    "components message payload": "components messages *M payload=H externalDocs",
    "components messageTraits": "components messageTraits *t externalDocs",
    "components messageTrait headers": "components messageTraits *t headers=H externalDocs",
    "components operations": "components operations *O externalDocs",
    "components operationTraits": "components operationTraits *t externalDocs",
    "components servers": "components servers *S externalDocs",
    "components tags": "components tags *T externalDocs",
    "components schemas": "components schemas *H externalDocs",
    "components channel messages": "components channels *C messages *M externalDocs",
    "components channel message traits": "components channels *C messages *M traits +t externalDocs",
    "components channel message trait tags": "components channels *C messages *M traits +t tags +T externalDocs",
    "components operations' traits": "components operations *O traits +t externalDocs",
    "components operations' trait tags": "components operations *O traits +t tags +T externalDocs",
    "components messages' traits": "components messages *M traits +t externalDocs",
    "components messages' trait tags": "components messages *M traits +t tags +T externalDocs",
}


CASES = Cases(PATHS, "D", R.DOCS, "components externalDocs *D")


def obligations(tier):
    assert list(PATHS) == [n for n, _ in R.DOCS_LOCATIONS]
    yield from RefCheck(ExternalDocsRefValidator, R.DOCS_LOCATIONS, R.docs_ref_ok, place).obligations()


def replay(case):
    return replay_doc(ExternalDocsRefValidator, R.docs_refs_ok, case)


def nontrivial(case):
    return '"#' in str(case["doc"]).replace("'", '"')


def fixed_cases(tier):
    yield from CASES.fixed(tier)


def random_cases(seed, tier):
    yield from CASES.random(seed, tier)
