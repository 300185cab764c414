"""Stand-in for Graph.display: the monitored code calls it as it calls the
real one, nothing is drawn.

observe() replaces the method on the class for the time of the block, so that
helper graphs (disjoint sets, spanning trees) are covered too.  Modes are
judged as the real method does: nothing happens when the mode is 'off'.
"""
import contextlib


class Abort(Exception):
    """raised by a display on purpose"""


class Frames(object):
    def __init__(self, on_frame=None, abort_at=None):
        self.on_frame = on_frame
        self.abort_at = abort_at
        self.shown = 0
        self.calls = 0
        self.modes = set()


@contextlib.contextmanager
def observe(gimpy, frames):
    cls = gimpy.Graph
    real = cls.__dict__['display']

    def display(self, highlight=None, *args, **kw):
        frames.calls += 1
        if self.attr['display'] == 'off':
            return
        frames.shown += 1
        frames.modes.add(self.attr['display'])
        if frames.abort_at is not None and frames.shown >= frames.abort_at:
            raise Abort('display number %d' % frames.shown)
        if frames.on_frame is not None:
            frames.on_frame(self, highlight)
        if highlight is not None:
            # what the real method does to highlighted nodes
            for n in highlight:
                n = n if isinstance(n, gimpy.graph.Node) else self.get_node(n)
                n.set_attr('color', 'red' if self.attr['display'] == 'file'
                           else 'black')
    cls.display = display
    try:
        yield frames
    finally:
        cls.display = real
