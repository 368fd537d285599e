"""The library through ctypes, straight from api.h and util.h: the oracle of the checks of the tool and the bindings."""
import ctypes as C

class KeyOptions(C.Structure):
    _fields_ = [('fixed', C.c_char), ('ci', C.c_char), ('uni', C.c_char)]
class PatternInfo(C.Structure):
    _fields_ = [('pattern', C.c_char_p), ('chain', C.c_char_p), ('user', C.c_uint64)]
class ProgramOptions(C.Structure):
    _fields_ = [('depth', C.c_uint32)]
class ContextOptions(C.Structure):
    _fields_ = [('b', C.c_uint64), ('e', C.c_uint64)]
class Error(C.Structure):
    pass
Error._fields_ = [('message', C.c_char_p), ('pattern', C.c_char_p), ('chain', C.c_char_p), ('source', C.c_char_p), ('index', C.c_int), ('next', C.POINTER(Error))]
class Hit(C.Structure):
    _fields_ = [('start', C.c_uint64), ('end', C.c_uint64), ('kw', C.c_uint32)]
class Window(C.Structure):
    _fields_ = [('begin', C.c_uint64), ('end', C.c_uint64)]
CB = C.CFUNCTYPE(None, C.c_void_p, C.POINTER(Hit))

class Lib:
    def __init__(self, path):
        L = self.L = C.CDLL(path)
        V = C.c_void_p
        def f(name, res, *args):
            g = getattr(L, name); g.restype = res; g.argtypes = list(args); setattr(self, name, g)
        PE = C.POINTER(C.POINTER(Error))
        f('lg_create_fsm', V, C.c_uint, C.c_uint); f('lg_destroy_fsm', None, V)
        f('lg_create_pattern', V); f('lg_destroy_pattern', None, V)
        f('lg_parse_pattern', C.c_int, V, C.c_char_p, C.POINTER(KeyOptions), PE)
        f('lg_add_pattern', C.c_int, V, V, C.c_char_p, C.c_uint64, PE)
        f('lg_add_pattern_list', C.c_int, V, C.c_char_p, C.c_char_p, C.POINTER(C.c_char_p), C.c_uint, C.POINTER(KeyOptions), PE)
        f('lg_fsm_pattern_count', C.c_uint, V); f('lg_prog_pattern_count', C.c_uint, V)
        f('lg_prog_pattern_info', C.POINTER(PatternInfo), V, C.c_uint)
        f('lg_create_program', V, V, C.POINTER(ProgramOptions)); f('lg_destroy_program', None, V)
        f('lg_program_size', C.c_uint, V); f('lg_write_program', None, V, V); f('lg_read_program', V, V, C.c_int)
        f('lg_create_context', V, V, C.POINTER(ContextOptions)); f('lg_destroy_context', None, V); f('lg_reset_context', None, V)
        f('lg_search', C.c_uint64, V, V, V, C.c_uint64, V, CB); f('lg_closeout_search', None, V, V, CB); f('lg_starts_with', None, V, V, V, C.c_uint64, V, CB)
        f('lg_search_resolve', C.c_uint64, V, V, V, C.c_uint64, V, CB)
        f('lg_create_decoder', V); f('lg_destroy_decoder', None, V)
        f('lg_hit_context', C.c_uint, V, V, V, C.c_uint64, C.POINTER(Window), C.c_char_p, C.c_size_t, C.c_uint32, C.POINTER(V), C.POINTER(Window), C.POINTER(Window), PE)
        f('lg_free_hit_context_string', None, V); f('lg_free_error', None, C.POINTER(Error))

    def errors(self, e):
        out = []; x = e
        while x:
            c = x.contents
            out.append((c.message, c.pattern, c.chain, c.source, c.index)); x = c.next
        if e: self.lg_free_error(e)
        return out

    def compile_lists(self, lists, encs, fixed=0, ci=0, uni=0, depth=0xffffffff):
        """lists: [(source, bytes)]; gives (program or None, errors, fsm)"""
        fsm = self.lg_create_fsm(0, 0); errs = []
        arr = (C.c_char_p * len(encs))(*encs); ko = KeyOptions(bytes([fixed]), bytes([ci]), bytes([uni]))
        for src, text in lists:
            e = C.POINTER(Error)()
            self.lg_add_pattern_list(fsm, text, src, arr, len(encs), C.byref(ko), C.byref(e))
            errs += self.errors(e)
        prog = self.lg_create_program(fsm, C.byref(ProgramOptions(depth)))
        self.lg_destroy_fsm(fsm)
        return prog, errs

    def info(self, prog):
        out = []
        for i in range(self.lg_prog_pattern_count(prog)):
            p = self.lg_prog_pattern_info(prog, i).contents
            out.append((p.pattern, p.chain, p.user))
        return out

    def search(self, prog, data, off=0):
        hits = []
        cb = CB(lambda u, h: hits.append((h.contents.start, h.contents.end, h.contents.kw)))
        ctx = self.lg_create_context(prog, C.byref(ContextOptions(2**64 - 1, 2**64 - 1)))
        buf = C.create_string_buffer(data, len(data) or 1); a = C.addressof(buf)
        if data: self.lg_search(ctx, a, a + len(data), off, None, cb)
        self.lg_closeout_search(ctx, None, cb)
        self.lg_destroy_context(ctx)
        return hits

    def context(self, dec, data, off, begin, end, chain, size, repl=0xFFFD):
        buf = C.create_string_buffer(data, len(data) or 1); a = C.addressof(buf)
        u = C.c_void_p(); outer = Window(); dh = Window(); e = C.POINTER(Error)()
        inner = Window(begin, end)
        bad = self.lg_hit_context(dec, a, a + len(data), off, C.byref(inner), chain, size, repl, C.byref(u), C.byref(outer), C.byref(dh), C.byref(e))
        errs = self.errors(e)
        s = C.string_at(u) if u else None
        if u: self.lg_free_hit_context_string(u)
        return s, (outer.begin, outer.end), (dh.begin, dh.end), bad, errs
