"""Security schemes and OAuth flows: exactly the documented combinations of fields are accepted."""
from pbt import grids
from pbt.grids import ABSENT, URL1, URL2
from pbt.table import OBJS

ID = "C22"
RULE = ("Every cell of the decision tables of SecurityScheme (type x in x name x scheme x bearerFormat x flows x openIdConnectUrl x scopes) and OAuthFlows "
        "(every flow absent or with every set of URLs) by parsing, JSON and construction; every single assignment from a valid cell to a neighbour; drawn cells inside whole "
        "documents at drawn positions. Non-trivial: always (each cell is distinct). Class = object and verdict.")
ASSUMES = ["other spellings of 'bearer' (letter case, blanks) are not visited"]

F = {"availableScopes": {}}
SCHEME = {
    "type": list(OBJS["SecurityScheme"].f("type").type.args),
    "in": [ABSENT, "user", "password", "query", "header", "cookie"],
    "name": [ABSENT, "n"],
    "scheme": [ABSENT, "basic", "bearer"],
    "bearerFormat": [ABSENT, "JWT"],
    "flows": [ABSENT, {}, {"password": {**F, "tokenUrl": URL1}}],
    "openIdConnectUrl": [ABSENT, URL1],
    "scopes": [ABSENT, [], ["read"]],
}
EDGE = {
    "type": ["http", "httpApiKey", "apiKey", "oauth2", "openIdConnect", "plain"],
    "in": [ABSENT, "header", "user"],
    "name": [ABSENT, ""],
    "scheme": [ABSENT, "", "bearer", "digest", "bearer2", "xbearer"],
    "bearerFormat": [ABSENT, ""],
    "flows": [ABSENT, {"implicit": F}, {"implicit": {**F, "authorizationUrl": URL1}}, {"x-a": 1}],
    "openIdConnectUrl": [ABSENT, URL2],
    "scopes": [ABSENT, ["a", "a"]],
}
FLOW = [ABSENT] + [{**F, **{k: URL1 for i, k in enumerate(("authorizationUrl", "tokenUrl", "refreshUrl")) if m >> i & 1}} for m in range(8)]
FLOWS = {f: FLOW for f in ("implicit", "password", "clientCredentials", "authorizationCode")}


def tasks(tier):
    out = grids.grid_tasks({"SecurityScheme": SCHEME}, tier)
    edge = grids.grid_tasks({"SecurityScheme": EDGE}, tier)
    for t in edge:
        t.name = "edge " + t.name
    return out + edge + grids.grid_tasks({"OAuthFlows": FLOWS}, tier)
