"""Scenarios, and which of them decide which property."""

from dst import seams

seams.import_wampproto()

from dst import scen_broker, scen_dealer, scen_handshake, scen_ids, scen_isolation, scen_payload, scen_rawsocket, scen_residue, scen_session, scen_wire, scen_world  # noqa: E402

SCENARIOS = {m.NAME: m for m in (scen_broker, scen_dealer, scen_handshake, scen_ids, scen_isolation, scen_payload, scen_rawsocket, scen_residue, scen_session, scen_wire, scen_world)}

# property -> [(scenario, focus, quick runs, thorough runs)]
PROFILES = {
    "C01": [("broker", "C01", 5000, 60000), ("world", "C01", 700, 10000)],
    "C02": [("broker", "C02", 5000, 60000), ("world", "C02", 700, 10000)],
    "C03": [("broker", "C03", 5000, 60000), ("world", "C03", 700, 10000)],
    "C04": [("dealer", "C04", 5000, 60000), ("world", "C04", 700, 10000)],
    "C05": [("dealer", "C05", 5000, 60000), ("world", "C05", 700, 10000)],
    "C06": [("dealer", "C06", 5000, 60000), ("world", "C06", 700, 10000)],
    "C07": [("dealer", "C07", 5000, 60000), ("world", "C07", 700, 10000)],
    "C08": [("dealer", "C08", 5000, 60000), ("world", "C08", 700, 10000)],
    "C09": [("dealer", "C09", 4500, 60000), ("broker", "C09", 1600, 20000), ("world", "C09", 700, 10000)],
    "C10": [("session", "C10", 5000, 60000), ("world", "C10", 700, 10000)],
    "C11": [("session", "C11", 5000, 60000)],
    "C12": [("world", "C12", 8000, 100000)],
    "C13": [("world", "C13", 8000, 100000)],
    "C14": [("handshake", "C14", 5000, 60000), ("world", "C14", 700, 10000)],
    "C15": [("handshake", "C15", 5000, 60000), ("world", "C15", 700, 10000)],
    "C16": [("handshake", "C16", 5000, 60000)],
    "C17": [("handshake", "C17", 5000, 60000)],
    "C18": [("wire", "C18", 5000, 60000), ("handshake", "C18", 2500, 30000), ("session", "C18", 2500, 30000)],
    "C19": [("rawsocket", "C19", 5000, 60000), ("world", "C19", 700, 10000)],
    "C20": [("residue", "C20", 5000, 60000)],
    "C21": [("isolation", "C21", 5000, 60000), ("handshake", "C21", 1600, 20000)],
    "C22": [("ids", "C22", 5000, 60000), ("world", "C22", 700, 10000)],
    "C23": [("wire", "C23", 6000, 80000)],
    "C24": [("payload", "C24", 5000, 60000)],
}
