"""records which repository functions were executed symbolically"""
import sys, os
SEEN = set()
TOOL = 3


def start(repo):
    SEEN.clear()
    m = sys.monitoring
    try:
        m.use_tool_id(TOOL, 'vt')
    except ValueError:
        m.restart_events()
    repo = os.path.join(os.path.realpath(repo), '')

    def on_start(code, off):
        f = code.co_filename
        if f.startswith(repo) and not code.co_name.startswith('<'):
            SEEN.add('%s:%s' % (f[len(repo):], code.co_qualname))
        return m.DISABLE
    m.register_callback(TOOL, m.events.PY_START, on_start)
    m.set_events(TOOL, m.events.PY_START)


def stop():
    return sorted(SEEN)
