"""Auth providers that the agent loads by name; what they supply is set by the harness."""
from deep.api.auth import AuthProvider

SCRIPT = []   # what each call of provide() does: ["give", [[key, value], ...]] or ["raise", kind]
GIVEN = []    # what was supplied so far
CALLS = [0]


class AuthFault(Exception):
    pass


def reset(script):
    del SCRIPT[:], GIVEN[:]
    SCRIPT.extend(script)
    CALLS[0] = 0


class Scripted(AuthProvider):
    def provide(self):
        i = CALLS[0]
        CALLS[0] += 1
        step = SCRIPT[min(i, len(SCRIPT) - 1)]
        if step[0] == "raise":
            raise {"error": AuthFault, "base": SystemExit, "key": KeyError}[step[1]]("no token")
        md = [(k, v.encode() if k.endswith("-bin") else v) for k, v in step[1]]
        GIVEN.append(md)
        return tuple(md) if step[0] == "give-tuple" else md


class FailsToConstruct(AuthProvider):
    def __init__(self, config):
        raise AuthFault("cannot construct")

    def provide(self):
        return []
