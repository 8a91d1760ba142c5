"""C11: tag references."""
from asyncapi3.validators import TagsRefValidator
from props.refcheck import *
from spec import refs as R

LEVEL = "proof"
REPLAY_ONLY = True
NOTE = ("Proved for all documents: soundness of every validation step, completeness for every listed location, and the "
        "reference check itself for all strings and component maps. Trusts pyvc, z3; free-form members hold JSON data.")
RULE = "a document with references at the listed locations; non-trivial when it has at least one local reference"
BOUNDED = "none for the proved obligations; an undecided one is covered by the concrete documents (labelled undecided)"
TRUSTED = []
ASSUMPTIONS = ["members of type Any hold JSON data, not instances of document classes",
               "the document was accepted by the library (fields have their declared types)"]
SHRINK = ("doc",)

def place(doc, ref):
    doc = dict(doc)
    doc["info"] = dict(doc.get("info") or {"title": "t", "version": "1"}, tags=[ref])
    return doc


PATHS = {
    "info": "info=i tags +T",
    "servers": "servers *S tags +T",
    "channels": "channels *C tags +T",
    "channel messages": "channels *C messages *M tags +T",
    "operations": "operations *O tags +T",
    "operation traits": "operations *O traits +t tags +T",
    "channel message traits": "channels *C messages *M traits +t tags +T",
    "components messages": "components messages *M tags +T",
    "components channels": "components channels *C tags +T",
    "components operations": "components operations *O tags +T",
    "components servers": "components servers *S tags +T",
    "components operationTraits": "components operationTraits *t tags +T",
    "components messageTraits": "components messageTraits *t tags +T",
    "components channel messages": "components channels *C messages *M tags +T",
    "components tags": "components tags *T",
    "components operations' traits": "components operations *O traits +t tags +T",
    "components messages' traits": "components messages *M traits +t tags +T",
    "components channel messages' traits": "components channels *C messages *M traits +t tags +T",
}


CASES = Cases(PATHS, "T", R.TAGS, "components tags *T")


def obligations(tier):
    assert list(PATHS) == [n for n, _ in R.TAG_LOCATIONS]
    yield from RefCheck(TagsRefValidator, R.TAG_LOCATIONS, R.tag_ref_ok, place).obligations()


def replay(case):
    return replay_doc(TagsRefValidator, R.tag_refs_ok, case)


def nontrivial(case):
    return '"#' in str(case["doc"]).replace("'", '"')


def fixed_cases(tier):
    yield from CASES.fixed(tier)


def random_cases(seed, tier):
    yield from CASES.random(seed, tier)
