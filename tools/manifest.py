"""Writes MANIFEST.json from the properties and the list of built checks."""
import json, pathlib, sys
V = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "harness"))
import check
built = {p: m for m, ids in check.WHERE.items() for p in ids}
props = [json.loads(l) for l in open(V / "properties.jsonl") if l.strip()]
TECH = {
    "p_checks_session": "TLA+ (Session.tla) model checked with TLC; every transition replayed in the real pools, recorded sessions validated by TLC",
    "p_checks_clixml": "TLA+ (Clixml.tla: lexical forms, type tables and denotation of documents) evaluated by TLC; TLC-enumerated and random values and documents put through the serializer and judged by TLC",
    "p_checks_messages": "TLA+ (Messages.tla: what each message says, and what each operation of an application gives) evaluated by TLC; TLC-enumerated and random operations carried out between a real client and server, messages and events judged by TLC",
    "p_checks_objects": "TLA+ (Objects.tla: classes, objects, members and what can be seen of them) model checked with TLC; enumerated and random histories carried out on real classes and judged by TLC",
    "p_checks_history": "TLA+ (History.tla: programs that hold, change, write and read values) model checked with TLC; enumerated and random histories, also with threads, carried out and every step judged by TLC",
    "p_checks_shell": "TLA+ (Shell.tla: shells, their streams and texts) model checked with TLC; enumerated and random histories and texts carried out and judged by TLC",
    "p_checks_numbers": "TLA+ (Numbers.tla: ranges, versions, enumerations) evaluated by TLC; enumerated and random values and pairs put through the types and judged by TLC",
    "p_checks_wire": "TLA+ (Wire.tla) model checked with TLC; TLC-generated schedules replayed, recorded packing and receiving validated by TLC",
}
DEF = "TLA+ specification evaluated and enumerated by TLC; generated cases replayed in the library and its recorded output validated by TLC"
NOTE = {
    "p_checks_session": "The design is checked exhaustively up to the stated depth per family; conformance covers every transition of those state graphs plus random recorded sessions.",
}
man = dict(
    version=1,
    setup_cmd="bash /verif/tools/setup.sh",
    checks=[
        dict(
            property=p["id"],
            quick_cmd="/opt/venv/bin/python /verif/harness/check.py %s quick" % p["id"],
            thorough_cmd="/opt/venv/bin/python /verif/harness/check.py %s thorough" % p["id"],
            technique=TECH.get(built[p["id"]], DEF),
            level="model_checking",
            level_note=NOTE.get(built[p["id"]], "Bounded: every case of the enumerated domain plus seeded random cases; the verdict on each case is computed by TLC from the specification."),
            evidence_file="evidence/%s.json" % p["id"],
        )
        for p in props
        if p["id"] in built
    ],
    not_applicable=[dict(property=p["id"], reason="the check for this property is not built yet") for p in props if p["id"] not in built],
)
(V / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(man["checks"]), "checks;", len(man["not_applicable"]), "not applicable")
