"""Line coverage of the repository by the checks (only when VERIF_COV names a directory); used to look for blind spots."""
import json
import os
import sys
import uuid

HIT = set()


def start(src):
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, "verif")

    def line(code, no):
        if code.co_filename.startswith(src):
            HIT.add((code.co_filename[len(src) + 1:], no))
        return mon.DISABLE

    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def dump(folder):
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, f"{uuid.uuid4().hex}.json"), "w") as f:
        json.dump(sorted(HIT), f)
