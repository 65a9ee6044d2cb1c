"""line coverage of the code under test (development aid): set VERIF_COV to a directory and run checks"""
import os
import sys

SEEN = set()
TOOL = sys.monitoring.COVERAGE_ID


def start(root):
    root = os.path.join(os.path.realpath(root), 'melodist') + os.sep

    def line(code, no):
        if code.co_filename.startswith(root):
            SEEN.add('%s:%d' % (code.co_filename[len(root):], no))
        return sys.monitoring.DISABLE

    if sys.monitoring.get_tool(TOOL) is None:
        sys.monitoring.use_tool_id(TOOL, 'cover')
        sys.monitoring.register_callback(TOOL, sys.monitoring.events.LINE, line)
        sys.monitoring.set_events(TOOL, sys.monitoring.events.LINE)


def save(path):
    with open(os.path.join(path, '%d.cov' % os.getpid()), 'w') as f:
        f.write('\n'.join(sorted(SEEN)))
