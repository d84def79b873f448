"""Rewrites section 5 of DESIGN.md from seeded/*/meta.json (development only)."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIRST_MISSED = {
    "low-end-straight-dropped": "keyword arguments compared with their defaults",
    "tables-with-the-same-pot-not-shown": "sequences of renders, not single ones",
    "shown-hands-pile-up": "attributes of the viewer from earlier renders",
    "seats-crowded-on-long-tables": "more table sizes",
    "final-results-kept": "containers shared through attributes of their own that are read back",
    "lookup-tables-shared-by-size": "a second object in the same interpretation",
    "amount-to-match-survives-a-fold": "attributes of their own follow the histories",
    "strengths-kept-from-an-earlier-look": "looks at the table between transitions",
    "second-street-forgets-the-raise": "histories are carried on from states that differ",
    "rest-of-a-tricked-deck-keeps-its-order": "shuffles are numbered",
    "long-boards-cut-to-five": "tables with seven community cards",
    "pause-before-the-table-is-sent": "order of sending and pausing",
    "shown-cards-replaced-by-their-names": "the web viewer's writes",
    "failed-viewer-keeps-its-server": "dropping a viewer that failed to start",
    "third-card-of-a-rank-skipped": "operators of cards whose type the translation lost",
    "empty-pot-keeps-the-old-number": "messages with an empty pot",
    "waits-for-a-dead-server": "servers that end at once",
    "only-refused-connections-are-retried": "other errors than refusal",
    "huge-bets-lose-their-last-chip": "amounts above 32 bits",
    "text-of-a-deck-is-sorted": "the text of a deck",
    "button-seat-zero-not-drawn-at-the-end": "marks compared for several tables",
    "five-cards-of-a-board-drawn": "pages with seven and eight community cards",
    "last-hole-cards-ignored": "up to six hole and seven community cards",
    "ten-seats-roll-once-too-often": "the button goes round long tables",
    "late-cards-never-come": "win probabilities with all cards that are left",
}


def main():
    rows = []
    for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        m = json.load(open(f))
        rows.append((m["property"], os.path.basename(os.path.dirname(f)), m["needs"]))
    rows.sort()
    t = ["## 5. Planted bugs", "",
         f"{len(rows)} changes, each written from the text of a property, with a demonstration on the real code. Every one is",
         "reported by the check of its own property. Those with a note were missed when planted; the note says what",
         "the check learnt.", "", "| property | change | missed at first: what was added |", "|---|---|---|"]
    for p, n, _ in rows:
        t.append(f"| {p} | {n} | {FIRST_MISSED.get(n, '')} |")
    p = os.path.join(ROOT, "DESIGN.md")
    s = open(p).read().split("## 5. Planted bugs")[0].rstrip() + "\n\n" + "\n".join(t) + "\n"
    open(p, "w").write(s)


main()
