"""Writes known_findings.txt: which property each repair belongs to, and the defects left in place."""
import os, subprocess, sys

HEAD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt")
MAP = {
"5fbe111": "C15", "83ff7c0": "C10", "1edc4af": "C07", "45d65c4": "C07", "3a6206a": "C09", "5aec8e7": "C21", "357bbf8": "C07", "2a0c866": "C07",
"25c762e": "C08", "3b1603d": "C08", "dbfa749": "C09", "46012e6": "C08", "8be55e9": "C09", "f363cff": "C21", "9883d75": "C03", "0340055": "C03",
"04e4101": "C04", "e827f0e": "C03", "6beef77": "C05", "4ef78e0": "C06", "cf74184": "C12", "76a418c": "C20", "cdf19b1": "C12", "7820080": "C13",
"b965336": "C16", "111ca95": "C18", "01dedb4": "C16", "b7d9a59": "C24", "e01e464": "C16", "144de2e": "C16", "f4dab6e": "C17", "9dd9c52": "C18",
"3c71918": "C19", "90c5ffc": "C18", "d6194b9": "C23", "36dc1fa": "C19", "0ddfdcd": "C18", "3941502": "C24", "7826e4f": "C24", "fa6c9f6": "C21",
"580c638": "C11", "d778e23": "C11", "4ba66f8": "C11", "fab915d": "C11", "130e609": "C11", "9dcd90c": "C14", "b2f72e1": "C14", "824d4d2": "C14",
"1c388dd": "C14", "056aadb": "C14", "ac8c964": "C14", "bc09e29": "C07", "4c3779f": "C09", "0f0d537": "C23", "ed87114": "C17", "0c8dcfd": "C19",
"bb6b12d": "C24", "cd6c07a": "C24", "1c85935": "C24", "f4e5ef4": "C25", "3480b67": "C30", "e31937e": "C30", "57a59b6": "C29",
}
KNOWN = [
("C17", "tls-rest-of-record-not-reported", "SocketSelector::wait doesn't report a TLS member of which the rest of a record is left to read, the record itself having been taken off the descriptor by an earlier receive of fewer bytes (harness c17, section tls)"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "cd0f406.."], stdout=subprocess.PIPE, universal_newlines=True, check=True).stdout.split("\n")
out = []
for l in log:
    if not l.strip(): continue
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    if h not in MAP:
        sys.exit("no property for %s %s" % (h, s))
    out.append("fixed: property=%s %s %s" % (MAP[h], h, s[5:]))
for k in KNOWN:
    out.append("known: property=%s key=%s %s" % k)
open(HEAD, "w").write("\n".join(out) + "\n")
