"""External documentation references stay within components.externalDocs."""
from pbt import refs
from pbt.collrefs import Family

from asyncapi3.validators import ExternalDocsRefValidator

QUICK = 6            # multiplies the drawn cases of a quick run
ID = "C17"
RULE = ("For each documented position of an external documentation reference, inside drawn documents with further good ones: a good reference (existing "
        "key, key whose entry is a reference, external) or a bad one (missing key, near miss, other collection, other place, malformed). Calling the "
        "validator, parsing with it and assigning it must agree with the verdict computed from the document alone; external references are logged; the "
        "document never changes. Non-trivial: always. Class = verdict:shape.")
ASSUMES = ["positions docs/extra_validators/references.md does not list and the validator does not visit (tags of servers and channels, binding schemas) are not decided",
           "cycles among external documentation references are left to the unified validator"]
DECIDED = ["info/externalDocs", "info/tags/[]/externalDocs"]
for root in ("", "components/"):
    DECIDED += [root + x for x in ("servers/*/externalDocs", "channels/*/externalDocs", "operations/*/externalDocs", "channels/*/messages/*/externalDocs",
                                   "channels/*/messages/*/traits/[]/externalDocs", "channels/*/messages/*/traits/[]/tags/[]/externalDocs",
                                   "operations/*/traits/[]/externalDocs", "operations/*/traits/[]/tags/[]/externalDocs")]
DECIDED += ["channels/*/messages/*/headers/externalDocs", "channels/*/messages/*/payload/externalDocs", "channels/*/messages/*/tags/[]/externalDocs",
            "channels/*/messages/*/traits/[]/headers/externalDocs", "operations/*/tags/[]/externalDocs"]
DECIDED += ["components/" + x for x in ("schemas/*/externalDocs", "messages/*/externalDocs", "tags/*/externalDocs", "operationTraits/*/externalDocs",
                                        "messageTraits/*/externalDocs", "messages/*/headers/externalDocs", "messages/*/payload/externalDocs",
                                        "messageTraits/*/headers/externalDocs", "messages/*/traits/[]/externalDocs", "messages/*/traits/[]/tags/[]/externalDocs",
                                        "externalDocs/*")]
FAM = Family("externalDocs", "ExternalDocumentation", DECIDED, ExternalDocsRefValidator)


def tasks(tier):
    return FAM.tasks(tier, 90)
