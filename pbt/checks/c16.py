"""Tag references stay within components.tags."""
from pbt import refs
from pbt.collrefs import Family

from asyncapi3.validators import TagsRefValidator

QUICK = 6            # multiplies the drawn cases of a quick run
ID = "C16"
RULE = ("For each of the 18 positions where a tag reference may stand, inside drawn documents with further good tag references: a good reference (existing "
        "key, key whose entry is a reference, external) or a bad one (missing key, near miss, other collection, other place, malformed). Calling the "
        "validator, parsing with it and assigning it must agree with the verdict computed from the document alone; external references are logged; the "
        "document never changes. Non-trivial: always. Class = verdict:shape.")
ASSUMES = ["cycles among tag references are left to the unified validator"]
FAM = Family("tags", "Tag", [p.name for p in refs.POSITIONS if p.expected == {"Tag"}], TagsRefValidator)
assert len(FAM.names) == 18


def tasks(tier):
    return FAM.tasks(tier, 160)
