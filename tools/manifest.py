"""Which properties have a registered check (CLAIMED) and how they are decided."""
T = "property-based testing: generated histories against an executable reference model"
SIM = "virtual clock, single-thread runtime: every run is a pure function of the code and VERIF_SEED"
PAR = "property-based testing: generated concurrent programs under generated thread schedules (deterministic preemptive scheduler), history checked against the sequential model"
SCH = "real OS threads, one runs at a time; preemption points at nexo's basic blocks, schedule is a pure function of the seed"
NET = "real loopback connections under a virtual clock; small socket buffers, channel capacities and payload limits included"
SDKT = "property-based testing (fast-check): generated programs and server behaviour with fault injection against a reference server"
SDK = "the client's sources bundled with a stand-in socket and virtual time: every run is a pure function of the code and VERIF_SEED"
CLAIMED = {
    "C01": dict(technique=T + " (map with expiry)", level="exploration", level_note=SIM),
    "C02": dict(technique=PAR + " (linearizability search per key)", level="exploration", level_note=SCH),
    "C03": dict(technique=T + " (pattern matching over subscription sets)", level="exploration", level_note=SIM),
    "C04": dict(technique=PAR + " (interval oracle: who must, who may receive each message; leftovers)", level="exploration", level_note=SCH),
    "C05": dict(technique=T + " (last value and expiry per topic)", level="exploration", level_note=SIM),
    "C06": dict(technique="property-based testing with fault injection: generated histories, restarts and disk images taken at generated (also torn) writes, against the set of allowed retained values", level="exploration", level_note=SIM),
    "C07": dict(technique=T + " (priority queue with holders, retries and dead letters; every answer, page and final drain compared)", level="exploration", level_note=SIM),
    "C08": dict(technique=T + " (holder, acknowledgement and timeout windows)", level="exploration", level_note=SIM),
    "C09": dict(technique=T + " (attempt counts and dead-letter queue)", level="exploration", level_note=SIM),
    "C10": dict(technique=T + " (waiting consumers: must be served at the instant a message becomes available)", level="exploration", level_note=SIM),
    "C11": dict(technique="property-based testing with fault injection: generated histories, restarts and disk images taken at generated (also torn) writes, against the set of allowed queue states", level="exploration", level_note=SIM),
    "C12": dict(technique=PAR + " (lifecycle search per message, order rules, disk image against the running state)", level="exploration", level_note=SCH),
    "C14": dict(technique=T + " (append-only log; every read compared record by record)", level="exploration", level_note=SIM),
    "C15": dict(technique=T + " (consumer groups: every delivery, acknowledgement and redelivery)", level="exploration", level_note=SIM),
    "C16": dict(technique=T + " (ack floor and pending count after every operation)", level="exploration", level_note=SIM),
    "C17": dict(technique=T + " (fencing; seek, leave and disconnect injected at generated steps of a fetch)", level="exploration", level_note=SIM),
    "C13": dict(technique=T + " (which names exist, with which settings and contents; restarts)", level="exploration", level_note=SIM),
    "C18": dict(technique="property-based testing with fault injection: generated histories, restarts and disk images taken at generated (also torn) writes, against the published log", level="exploration", level_note=SIM),
    "C19": dict(technique="property-based testing with fault injection: generated histories, restarts and disk images taken at generated (also torn) writes, against the set of allowed group positions", level="exploration", level_note=SIM),
    "C20": dict(technique=T + " (retention bounds computed from the published log)", level="exploration", level_note=SIM),
    "C21": dict(technique=PAR + " (gapless log, one record per number in memory, in files and after a restart; exclusive delivery)", level="exploration", level_note=SCH),
    "C23": dict(technique="property-based testing / structure-aware fuzzing: requests built from an independent grammar with field and byte mutations; oracle: grammar, existence model, state compared around every refusal", level="exploration", level_note=SIM),
    "C24": dict(technique="property-based testing: generated pipelines of frames over real connections, cut and read back in generated pieces; oracle: the multiset of answers, the order of pushes, the effects", level="exploration", level_note=NET),
    "C25": dict(technique="property-based testing with fault injection: generated histories of several connections ended in generated ways and moments, against a model of what the survivors hold", level="exploration", level_note=NET),
    "C26": dict(technique="property-based testing: generated odd names in generated histories with restarts against a model; every path-changing file call recorded and confined", level="exploration", level_note=SIM),
    "C27": dict(technique=T + " (every answer of /api/* and every page, for generated parameters)", level="exploration", level_note=SIM),
    "C28": dict(technique=PAR + " (some order of the requests must explain names, settings, contents and files)", level="exploration", level_note=SCH),
    "C29": dict(technique=SDKT + " (independent reading of the protocol, both ways)", level="exploration", level_note=SDK),
    "C30": dict(technique=SDKT + " (each call's end against its own answer, loss or time limit)", level="exploration", level_note=SDK),
    "C31": dict(technique=SDKT + " (interval oracle per handler; subscriptions compared at rest)", level="exploration", level_note=SDK),
    "C32": dict(technique=SDKT + " (each delivery followed to its callback and report)", level="exploration", level_note=SDK),
    "C33": dict(technique=SDKT + " (each delivery followed to its callback and acknowledgement; membership)", level="exploration", level_note=SDK),
    "C22": dict(technique=T + " (waiting fetches; clients vanish at generated steps of a fetch)", level="exploration", level_note=SIM),
}
NOT_YET = "check not registered yet (under construction)"

def build(props):
    checks, na = [], []
    for p in props:
        c = CLAIMED.get(p["id"])
        if c is None:
            na.append(dict(property=p["id"], reason=NOT_YET)); continue
        checks.append(dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']}",
                           thorough_cmd=f"bash check.sh {p['id']} thorough",
                           evidence_file=f"evidence/{p['id']}.json", **c))
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks)
    if na: m["not_applicable"] = na
    return m
