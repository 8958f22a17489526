"""What each check is: which build decides it, at which level, and what it leans on."""
import json
import os

ASSUMPTIONS = [
    "the integrator model (in-memory store, callbacks, clients) answers as the interfaces of /repo/bridge document",
    "the time source is the endpoint's TimeBuilder and jwt.TimeFunc, both driven by the harness' virtual clock",
]

PLAN = {}


def add(prop, technique, note, kind="plain", level="exploration", assumptions=()):
    PLAN[prop] = {"kind": kind, "level": level, "technique": technique, "note": note, "assumptions": list(assumptions)}


TOK = ("runtime monitoring: every response and every data-interface call of generated token requests is compared online with an independent reference model of the endpoint",
       "exploration: seeded random requests (valid and with 1-2 defects of ~60 kinds) against generated stores; the oracle is an independently written model")
for p in ("C01", "C02", "C03", "C05", "C06", "C07", "C09"):
    add(p, *TOK)

AUTH = ("runtime monitoring: every authorization request of generated stories (request, login, consent, completion or cancellation) is compared online with an independent reference model of the endpoint, as are the data-interface calls and the responses as a browser would read them",
        "exploration: seeded random requests, policies, login states and stored authorizations, each valid or with 1-4 deviations of ~55 kinds; the oracle is an independently written model")
for p in ("C11", "C12", "C13", "C14", "C15", "C16", "C17", "C19"):
    add(p, *AUTH)
add("C10", "runtime monitoring: every ID token the endpoints hand out in generated token requests and authorization stories is verified with the client's public key and its claims compared one by one with a reference model", "exploration: all flows x 12 signing algorithms x keys x claim values; judged with the Go standard library's crypto")
add("C25", "runtime monitoring: a recording logger and all responses of generated token requests, authorization stories and resource accesses are searched for the secrets of the case in plain and encoded forms", "exploration: seeded random requests and failures; secrets are unique per case so any occurrence is a leak")

PURE = "runtime monitoring: the real function runs on generated, edge-case and hostile values and every result is compared with an independent reference"
add("C18", "runtime monitoring: every response of the response writers and of generated authorization stories is parsed the way a browser parses it and compared with the parameters that were to be delivered", "exploration: hostile values x redirect addresses x modes")
RPT = "runtime monitoring: every generated resource access is compared online with an independent reference model; the identity headers are read as the application would"
add("C21", RPT, "exploration: seeded random accesses, each valid or with 1-3 deviations")
add("C22", RPT, "exploration: seeded random accesses to paths with registered scope requirements")
add("C04", "runtime monitoring under a controlled scheduler: one code is presented several times at once while every data-interface call is a scheduling point; responses and calls are watched", "exploration: all schedules of two presentations for sampled requests, random schedules of up to five")
add("C08", "runtime monitoring under a controlled scheduler: one assertion is presented several times at once while every data-interface call is a scheduling point; responses and registrations are watched", "exploration: all schedules of two presentations for sampled requests, random schedules of up to five")
add("C20", "fault injection under runtime monitoring: each data-interface and callback call of generated requests is made to fail in every way, singly, in pairs and as outages; response and later calls are compared with a reference model", "exploration: exhaustive over single call-failure points of each generated request")
add("C23", "Go race detector plus runtime monitoring: batches of concurrent requests on shared endpoint objects, under random schedules of the data-interface calls and free-running with injected delays; every request is judged by the reference models and against its outcome when served alone",
    "exploration: sampled interleavings; the free-running differential part uses a data interface without synchronisation so that the race detector sees only the order the code under test makes itself", kind="race")
add("C24", "runtime monitoring under hostile workloads: requests mangled at every level of HTTP, in-process and over real connections, with panic, hang and response-shape monitors, the reference models as entitlement oracle, and correct requests interleaved on the same endpoint objects",
    "exploration: seeded combinations of ~30 manglings of otherwise plausible requests")
add("C26", PURE + "; requests are parked and taken up again through URLs, cookies and forms", "exploration: random, hostile and tampered values")
add("C27", PURE + "; the source of randomness is recorded while verifiers are generated", "exploration: values, plus statistics and provenance of generated verifiers")
add("C29", "runtime monitoring of histories: a ledger of what users decided and what was delivered judges every artefact of long histories of several users and clients, with operations in the middle of others and failing calls",
    "exploration: random histories of 60 and 600 operations on shared endpoint objects; undisturbed operations are also judged by the reference models")
add("C30", PURE, "exploration: random and hostile ids, secrets and headers")
add("C31", PURE, "exploration: all error types x hostile values x renderings")
add("C32", "runtime monitoring: standard output and every message given to a logger are captured and checked while messages of all kinds are logged and hostile requests are served",
    "exploration: all levels x thresholds x call forms, sequential and concurrent; all events x hostile realms and attributes; seeded hostile requests")
add("C28", "runtime monitoring: the key endpoint and the PEM and JWK loaders run on generated key sets and mutated PEM data; every published document and every loaded key is compared with what was registered, read with the Go standard library alone",
    "exploration: seeded sets of real keys of many sizes and hostile key ids, re-registrations, every truncation of sample PEM files and random mutations",
    kind="jwk", assumptions=["github.com/lestrrat/go-jwx, which is not available offline, is replaced by a stand-in that implements what goidc uses of it (harness_jwk/jwxstub)"])
add("C33", PURE, "exploration: exhaustive over small word universes, random beyond")
add("C34", "runtime monitoring of histories: several endpoints of each kind are made, configured and used side by side; every request is compared online with the reference models under the settings its endpoint has at that moment, and the integrator's own grant handlers record what they are called with",
    "exploration: seeded sequences of settings and requests; the default clock is compared with the real one, requests during which the second changes are not judged")
add("C35", "runtime monitoring: after each resource access that is let through, the request is read as an application would and compared with the one that was sent; repeated questions are compared with each other",
    "exploration: bodies of all content types x headers x acceptance settings")
add("C36", "runtime monitoring of resources: goroutines, open files, live heap objects and finalizers of requests, writers and stores are counted before and after long runs of each kind of request",
    "exploration: ~190 kinds of requests, each many times on one endpoint; growth counts only when it goes on in a second run")


def known_findings(verif):
    with open(os.path.join(verif, "known_findings.json")) as f:
        return {x["id"]: x for x in json.load(f)["known"]}
