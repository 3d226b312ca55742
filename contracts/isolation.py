"""C19: no operation stores anything in state shared between analyses; new objects have their own mutable data.

Every unit of the other contracts is one operation in an arbitrary pre-state.  Here each of them carries a frame
condition over everything reachable from the modules of the code under test (globals, class attributes, default
arguments, closures), on every way the operation ends.  Together with the separation of freshly made objects this
gives the property: an operation on one analysis writes only what is reachable from its arguments, and what is
reachable from the objects of one analysis is not reachable from those of another."""
import enum
import types
import z3
from engine import heap
from engine.core import Unsupported
from engine.unit import Unit
from engine.symval import Z, zi
from .common import frame, outcome, sym_file, SymFile
from . import chipstate, cli, document, instruments, notes, process, song, stream, streams, tempo, trackscsv, values

# what the units replace while they run: the callees they treat by contract, and recorders
STUBS = ("__init__", "add_note", "add_pattern", "writer", "reader", "process_vgm_file", "extract_instruments", "extract_tracks_to_xrns", "extract_tracks",
         "ticks_per_note", "apply", "beat", "open", "stdin", "stdout", "XmlSerializer", "zipfile", "ZipFile", "SerializerConfig", "__getattr__",
         "note", "xrns_note", "__str__")
FUNS = (types.FunctionType, types.BuiltinFunctionType, types.MethodType, types.ModuleType, property, classmethod, staticmethod)


def framed(u):
    def run(ex):
        glob = heap.Snapshot(heap.global_roots())
        u.fn(ex)
        frame(ex, "C19.shared-state-untouched", glob, lambda p, l, o: l in STUBS and isinstance(o, (type, types.ModuleType)), None)
    return Unit("shared state: " + u.name, run, u.functions, replay=None, timeout=u.timeout, cover=u.covers, assumptions=u.assumptions, max_paths=u.max_paths)


def mutable_objects(root):
    s = heap.Snapshot([("x", root)])
    out = {}
    for i, (o, p, st) in s.objs.items():
        if isinstance(o, FUNS) or isinstance(o, (type, enum.Enum)) or isinstance(o, SymFile):
            continue
        if isinstance(o, (tuple, frozenset)):
            continue
        if st is None and not constant_kind(o):
            raise Unsupported(f"{p} is an object of type {type(o).__name__}: not tracked")
        if st is not None:
            out[i] = (o, p)
    return out


def constant_kind(o):
    import logging
    import re
    import struct
    import typing
    if isinstance(o, (type,) + FUNS) or isinstance(o, (struct.Struct, re.Pattern, logging.Logger, logging.LoggerAdapter)):
        return True
    t = type(o)
    return t.__module__ == "typing" or t.__name__ in ("_Shim", "GenericAlias", "wrapper_descriptor", "method_descriptor", "getset_descriptor",
                                                        "member_descriptor", "itemgetter", "attrgetter", "methodcaller", "UnionType", "mappingproxy")


def constructors():
    """name -> function making one object of an analysis, by the interface the program itself uses"""
    import vgm.core
    import xrns.parts.song
    from vgm.ym2151 import config, state, note
    from xrns.xrns_serializer import XrnsSerializer
    out = {"State": state.State, "Song": lambda: xrns.parts.song.Song(tracks=8, instruments=3),
           "BaseConfig": config.BaseConfig, "ChannelConfig": config.ChannelConfig, "OperatorConfig": config.OperatorConfig, "NoteConfig": config.NoteConfig,
           "Note": lambda: note.Note(0, config.NoteConfig(), 5)}
    return out


def fresh(ex):
    import vgm.core
    makers = constructors()
    names = sorted(makers) + ["Vgm", "two songs' patterns"]
    which = ex.choose(names)
    info = {"over": True}       # a constant both refer to is harmless unless it is written
    if which == "Vgm":
        f, a = stream.good_header(ex, "f")
        g, b = stream.good_header(ex, "g")
    elif which in makers:
        (ka, a), (kb, b) = outcome(makers[which]), outcome(makers[which])
        if "exc" in (ka, kb):
            raise Unsupported(f"{which} is made differently")
    else:
        sa, sb = makers["Song"](), makers["Song"]()
        for s in (sa, sb):
            for p, c in ((2, 0), (0, 7)):
                s.pattern_pool.add_note(p, c, 9, "C-4", "00", None)
                s.pattern_sequence.add_pattern(p)
        a, b = sa, sb
    ma, mb = mutable_objects(a), mutable_objects(b)
    both = [ma[i][1] for i in ma if i in mb]
    gl = mutable_objects_of_modules()
    both += [ma[i][1] for i in ma if i in gl]
    if both:
        ex.fail("C19.new-objects-share-nothing", f"{which}: two new objects share {sorted(set(both))[:3]}", info)
    else:
        ex.prove("C19.new-objects-share-nothing", True)
    ex.cover(which)


def mutable_objects_of_modules():
    out = {}
    for i, (o, p, st) in heap.Snapshot(heap.global_roots()).objs.items():
        if isinstance(o, FUNS) or isinstance(o, (type, enum.Enum, tuple, frozenset)):
            continue
        if st is None:
            if not constant_kind(o):
                raise Unsupported(f"the global {p} is an object of type {type(o).__name__}: not tracked")
            continue
        out[i] = (o, p)
    return out


def serializer_unit(ex):
    """what serializers share (their default configuration) is not written: the frames of the document units; here, making one writes nothing"""
    from xrns.xrns_serializer import XrnsSerializer
    glob = heap.Snapshot(heap.global_roots())
    kind, a = outcome(XrnsSerializer)
    if kind == "exc":
        raise Unsupported("the serializer is made differently")
    own = {i for i, (o, p) in mutable_objects(a).items()}
    gl = mutable_objects_of_modules()
    b = XrnsSerializer()
    hit = [p for i, (o, p) in mutable_objects(b).items() if i in own and i not in gl]
    if hit:
        ex.fail("C19.new-objects-share-nothing", f"two serializers share {hit[:3]}", {"over": True})
    else:
        ex.prove("C19.new-objects-share-nothing", True)
    frame(ex, "C19.shared-state-untouched", glob, None, None)


_seen, _units = set(), []
for _m in (stream, chipstate, process, song, document, instruments, notes, values, streams, cli, tempo, trackscsv):
    for _pid, _us in _m.UNITS.items():
        for _u in _us:
            if id(_u) in _seen or not _u.functions:
                continue
            _seen.add(id(_u))
            _units.append(framed(_u))
UNITS = {"C19": [Unit("new objects", fresh, ["vgm.ym2151.state:State.__init__", "vgm.core:Vgm.__init__", "xrns.parts.song:Song.__init__",
                                             "xrns.parts.globals:Globals.__init__", "xrns.parts.track:Tracks.__init__", "xrns.parts.pattern:PatternPool.__init__"],
                      cover=["State", "Song", "Vgm", "two songs' patterns"]),
                 Unit("new serializers", serializer_unit, ["xrns.xrns_serializer:XrnsSerializer.__init__", "xrns.xrns_serializer:SerializerConfig.__init__"])] + _units}
