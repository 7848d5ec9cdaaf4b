"""C06-C08: the image readers against typestate models of the C library, libpng and libjpeg."""
from layers import *
import stdm

IO = 'deepworks::io::ReadImage'
H, W, C = var('H', True, 1), var('W', True, 1), var('C', True, 1)
D8, DLOW = bvar('depth_8'), bvar('depth_below_8')
DEPTH = ite(D8, const(8), ite(DLOW, var('depth', True, 1), const(16)))
OPEN, SIG, PNGOK, INFOOK = bvar('open_ok'), bvar('sig_ok'), bvar('png_created'), bvar('info_created')
NREAD = var('nread', True, 0)
GENS = {'H': lambda r: r.choice([1, 2, 3]), 'W': lambda r: r.choice([1, 2, 3]), 'C': lambda r: r.choice([1, 3, 4, 2]),
        'depth': lambda r: r.choice([1, 2, 4]), 'nread': lambda r: r.choice([0, 3, 7, 8, 8, 8, 8])}
JD, JE = 'jpeg_decompress_struct', 'jpeg_error_mgr'


def leaves_of(v, c=TRUE):
    if isinstance(v, Gate):
        return leaves_of(v.a, and_(c, v.c)) + leaves_of(v.b, and_(c, not_(v.c)))
    return [(c, v)]


# transformations that change the values or the number of the samples delivered (listed after the header was read, or not)
ALTER = ('png_set_expand_gray_1_2_4_to_8 png_set_expand png_set_expand_16 png_set_palette_to_rgb png_set_tRNS_to_alpha '
         'png_set_gray_to_rgb png_set_rgb_to_gray png_set_rgb_to_gray_fixed png_set_strip_alpha png_set_add_alpha png_set_filler png_set_packswap png_set_shift png_set_gamma png_set_gamma_fixed png_set_alpha_mode png_set_background png_set_quantize')


class Lib:
    """the library model; every obligation becomes an event ('res', property, bad condition, message)"""

    def __init__(self, d, path):
        self.d, self.I, self.path = d, d.I, path
        I = d.I
        self.err = d.cell(FALSE, 'error')
        self.files, self.pngs, self.infos, self.jpegs, self.arrays = [], [], [], [], []
        self.handlers = {}
        self.HND = {}
        for n in ('fopen fclose fread rewind fseek png_sig_cmp png_create_read_struct png_create_info_struct png_destroy_read_struct png_destroy_info_struct '
                  'png_set_longjmp_fn png_init_io png_set_sig_bytes png_read_info png_get_image_width png_get_image_height png_get_channels '
                  'png_get_bit_depth png_get_color_type png_set_bgr png_set_swap_alpha png_set_invert_mono png_set_invert_alpha png_set_swap ' + ALTER + ' png_set_packing png_set_strip_16 png_read_update_info png_get_rowbytes png_read_image png_read_row png_read_rows png_get_interlace_type '
                  'png_read_end png_set_interlace_handling png_start_read_image jpeg_std_error jpeg_CreateDecompress jpeg_stdio_src '
                  'jpeg_read_header jpeg_start_decompress jpeg_read_scanlines jpeg_finish_decompress jpeg_abort_decompress '
                  'jpeg_destroy_decompress jpeg_destroy _setjmp setjmp __sigsetjmp sigsetjmp longjmp png_longjmp exit abort').split():
            f = getattr(self, 'h_' + n.lstrip('_'), None)
            if f is not None:
                I.hooks[n] = self.wrap(f)
        I.hooks['std::longjmp'] = I.hooks['longjmp']
        for n in ('fopen', 'fclose', 'fread', 'rewind', 'exit', 'abort'):
            I.hooks['std::' + n] = I.hooks[n]
        I.hooks['$strdata'] = self.strdata
        I.hooks['$new'], I.hooks['$delete'], I.hooks['$adopt'] = self.new, self.delete, self.adopt
        self.heap = {}
        I.hooks['malloc'] = I.hooks['std::malloc'] = self.wrap(self.h_malloc)
        I.hooks['free'] = I.hooks['std::free'] = self.wrap(self.h_free)
        null = {'err', 'mem', 'src', 'client_data', 'error_exit'}
        I.ext = {JD: lambda p: NULL if p in null else ZERO, JE: lambda p: NULL if p in null else ZERO,
                 'jpeg_common_struct': lambda p: NULL if p in null else ZERO, '__jmp_buf_tag': lambda p: ZERO}

    def wrap(self, f):
        def g(I, e, st, fr, obj, args):
            return f(e, st, fr, args)
        return g

    # ---- obligations
    def need(self, pid, st, fr, line, good, msg):
        bad = not_(st.decide(good)) if isinstance(good, Term) else (FALSE if good else TRUE)
        if bad is not FALSE:
            self.I.event('res', st, fr, line, (pid, bad, msg))

    def ok(self, st, fr, line, msg):
        self.I.event('resok', st, fr, line, msg)

    def strdata(self, I, e, st, fr, obj, args):
        s = I.val(st, obj)
        if 'string_view' in e.get('clst', e.get('cls', '')) and e.get('n') == 'data':
            return uf('unterminated', (s,), 's')
        return s

    def target(self, pid, st, fr, line, p, kind, cells, what):
        """cell behind a handle argument; obligations for null / indeterminate / wrong handles"""
        p = self.I.val(st, p)
        if isinstance(p, Gate):
            parts = leaves_of(p)
            live = [v for c, v in parts if isinstance(v, Ptr) and v.base is not None]
            bad = or_(*[c for c, v in parts if not (isinstance(v, Ptr) and v.base is not None)])
            self.need(pid, st, fr, line, not_(bad), '%s uses a null or undefined %s' % (what, kind))
            if len({v.base.cell for v in live}) != 1:
                raise Ambiguous('several %s' % kind, p.c)
            p = live[0]
        if p is UNDEF or (isinstance(p, Opq) and p.k == 'indet') or (isinstance(p, Ptr) and p.base is None):
            why = 'null' if isinstance(p, Ptr) else 'uninitialised' if p is UNDEF else \
                'indeterminate (modified between setjmp and longjmp)'
            self.need(pid, st, fr, line, False, '%s uses a %s %s' % (what, why, kind))
            return None
        if not isinstance(p, Ptr) or p.base.cell not in cells:
            raise Unsupported('%s of an unmodelled %s' % (what, kind))
        return p.base.cell

    def get(self, st, c, f):
        return self.I.load(st, Loc(c)).f[f]

    def set(self, st, c, f, v):
        st.store[c] = st.store[c].with_(f, v)

    # ---- failures
    def may_fail(self, st, fr, line, cond, raise_):
        """fork a failing execution of a library call"""
        cond = st.decide(cond)
        if cond is FALSE:
            return
        s1 = st.fork(cond)
        self.I.store(s1, self.err, TRUE)
        try:
            raise_(s1)
            if cond is TRUE:
                raise Dead()
        except Dead:
            if cond is TRUE:
                raise
        st.assume(not_(cond))

    def jump(self, st, fr, line, key, what):
        h = st.store.get(('jb', key))
        if h is None or h is ZERO:
            self.need('C08', st, fr, line, False, '%s fails without a setjmp in place: the process is ended' % what)
            raise Dead()
        if not isconst(h):
            raise Unsupported('several setjmps for one buffer')
        frame, stmt, snap, vol, alive = self.handlers[cval(h)]
        if not any(x is frame for x in self.I.stack):
            self.need('C08', st, fr, line, False, '%s fails after the function that called setjmp returned' % what)
            raise Dead()
        x = IN.Exc('$jmp', (frame, stmt, snap, vol), line, fr.fn, fr.file)
        x.alive = alive
        self.I.thr.append((st.copy(), x))
        raise Dead()

    def key(self, st, p):
        p = self.I.val(st, p) if not isinstance(p, Loc) else p
        if isinstance(p, Ptr) and p.base is not None:
            l = p.base
        elif isinstance(p, Loc):
            l = p
        else:
            raise Unsupported('jump buffer')
        path = tuple(x for x in l.path if not (isinstance(x, tuple) and x[1] is ZERO))
        return (l.cell, path)

    def h_setjmp(self, e, st, fr, a):
        if self.I.sjval is not None:
            v, self.I.sjval = self.I.sjval, None
            # the buffer stays valid: nothing to register again
            return v
        k = self.key(st, a[0])
        ident = (fr.fn, e['l'], k)
        n = self.HND.setdefault(ident, len(self.HND) + 1)
        snap = {d: (l, st.store[l.cell]) for d, l in fr.env.items() if isinstance(l, Loc) and not l.path and l.cell in st.store
                and (isinstance(st.store[l.cell], (Term, Ptr, Gate)) or st.store[l.cell] is UNDEF)}
        self.handlers[n] = (fr, fr.stmt, snap, set(fr.vol), set(st.store))
        st.store[('jb', k)] = const(n)
        return ZERO

    h_sigsetjmp = h_setjmp

    def h_longjmp(self, e, st, fr, a):
        self.jump(st, fr, e['l'], self.key(st, a[0]), 'longjmp')

    def h_png_longjmp(self, e, st, fr, a):
        c = self.target('C06', st, fr, e['l'], a[0], 'png struct', self.pngs, 'png_longjmp')
        self.jump(st, fr, e['l'], (c, ('jmp',)), 'png_longjmp')

    def h_exit(self, e, st, fr, a):
        self.need('C08', st, fr, e['l'], False, 'the process is ended')
        raise Dead()

    h_abort = h_exit

    # ---- heap buffers of the readers
    def new(self, st, fr, line, p):
        if '/io/' in (fr.file or ''):
            st.store[('heap', p.base.cell)] = TRUE
            self.heap[p.base.cell] = line

    def adopt(self, st, p):
        if isinstance(p, Ptr) and p.base is not None:
            st.store.pop(('heap', p.base.cell), None)

    def delete(self, st, fr, line, p):
        for c, v in leaves_of(p):
            if isinstance(v, Ptr) and v.base is None:
                continue
            if v is UNDEF or isinstance(v, Opq) and v.k == 'indet':
                self.need('C06', st, fr, line, not_(c), 'delete of an %s pointer' %
                          ('uninitialised' if v is UNDEF else 'indeterminate (modified between setjmp and longjmp)'))
            elif isinstance(v, Ptr):
                k = ('heap', v.base.cell)
                if k in st.store:
                    self.need('C06', st, fr, line, or_(not_(c), st.store[k]), 'a buffer is deleted twice')
                    st.store[k] = ite(c, FALSE, st.store[k])

    def h_malloc(self, e, st, fr, a):
        p = Ptr(self.I.new_cell(st, self.I.fresh_seq(st, fr, self.I.num(st, a[0]), 'unsigned char', False, 'malloc'), 'malloc'), ZERO)
        self.new(st, fr, e['l'], p)
        return p

    def h_free(self, e, st, fr, a):
        self.delete(st, fr, e['l'], self.I.val(st, a[0]))

    # ---- stdio
    def h_fopen(self, e, st, fr, a):
        p = self.I.val(st, a[0])
        if isinstance(p, Term) and p.sort == 's':
            if p.op == 'uf' and p.args[0] == 'unterminated':
                self.need('C08', st, fr, e['l'], False, 'the path handed to fopen is not null-terminated (string_view::data)')
            else:
                self.need('C08', st, fr, e['l'], p is self.path, 'opens another path than the one given')
        m = self.I.val(st, a[1])
        if isinstance(m, Term) and m.op == 'str':
            self.need('C08', st, fr, e['l'], m.args[0].startswith('r') and '+' not in m.args[0], 'the image file is not opened for reading (mode %r)' % m.args[0])
        c = self.I.new_cell(st, Struct('FILE', {'open': OPEN, 'pos': ZERO}), 'FILE')
        self.files.append(c.cell)
        return Gate(OPEN, Ptr(c), NULL)

    def h_fclose(self, e, st, fr, a):
        c = self.target('C06', st, fr, e['l'], a[0], 'FILE', self.files, 'fclose')
        if c is not None:
            self.need('C06', st, fr, e['l'], self.get(st, c, 'open'), 'fclose of a file that is not open (closed twice)')
            self.set(st, c, 'open', FALSE)
        return ZERO

    def file(self, e, st, fr, p, what, pid='C06'):
        c = self.target(pid, st, fr, e['l'], p, 'FILE', self.files, what)
        if c is not None:
            self.need('C06', st, fr, e['l'], self.get(st, c, 'open'), '%s uses a closed file' % what)
        return c

    def h_fread(self, e, st, fr, a):
        c = self.file(e, st, fr, a[3], 'fread')
        n = mul(self.I.num(st, a[1]), self.I.num(st, a[2]))
        if n is not const(8):
            raise Unsupported('fread of other than the 8 signature bytes')
        p = self.I.val(st, a[0])
        if isinstance(p, Ptr) and p.base is not None:
            v = self.I.load(st, p.base)
            if isinstance(v, Vec):
                off = p.off if p.off is not None else ZERO
                self.need('C06', st, fr, e['l'], T.ge(v.n, add(off, n)), 'fread writes past its buffer')
                self.I.store(st, p.base, Vec(v.n, tuple(uf('sigbyte', (const(i),), 'n', True) for i in range(len(v.d))) if isinstance(v.d, tuple) else v.d, v.et))
        if c is not None:
            self.set(st, c, 'pos', NREAD)
        if self.I.num(st, a[1]) is not ONE:
            return ite(T.eq(NREAD, const(8)), self.I.num(st, a[2]), ZERO)
        return NREAD

    def h_rewind(self, e, st, fr, a):
        c = self.file(e, st, fr, a[0], 'rewind')
        if c is not None:
            self.set(st, c, 'pos', ZERO)

    # ---- libpng
    def h_png_sig_cmp(self, e, st, fr, a):
        if self.I.num(st, a[1]) is not ZERO or self.I.num(st, a[2]) is not const(8):
            n = self.I.num(st, a[2])
            return ite(bvar('sig_prefix'), ZERO, ONE)
        return ite(ite(T.eq(NREAD, const(8)), SIG, bvar('sig_of_garbage')), ZERO, ONE)

    def h_png_create_read_struct(self, e, st, fr, a):
        c = self.I.new_cell(st, Struct('png', {'live': PNGOK, 'pack': FALSE, 'passes': FALSE, 'alter': FALSE, 'row': ZERO, 'strip': FALSE, 'upd': FALSE, 'file': ZERO, 'sig': ZERO, 'info': FALSE,
                                               'jmp': ZERO, 'row': ZERO}), 'png struct')
        self.pngs.append(c.cell)
        return Gate(PNGOK, Ptr(c), NULL)

    def png(self, e, st, fr, p, what):
        c = self.target('C06', st, fr, e['l'], p, 'png struct', self.pngs, what)
        if c is None:
            raise Dead()
        self.need('C06', st, fr, e['l'], self.get(st, c, 'live'), '%s uses a destroyed png struct' % what)
        return c

    def info(self, e, st, fr, p, what):
        c = self.target('C06', st, fr, e['l'], p, 'png info struct', self.infos, what)
        if c is None:
            raise Dead()
        self.need('C06', st, fr, e['l'], self.get(st, c, 'live'), '%s uses a destroyed png info struct' % what)
        return c

    def h_png_create_info_struct(self, e, st, fr, a):
        self.png(e, st, fr, a[0], 'png_create_info_struct')
        c = self.I.new_cell(st, Struct('pnginfo', {'live': INFOOK}), 'png info struct')
        self.infos.append(c.cell)
        return Gate(INFOOK, Ptr(c), NULL)

    def h_png_destroy_read_struct(self, e, st, fr, a):
        for x, cells, kind in ((a[0], self.pngs, 'png struct'), (a[1], self.infos, 'png info struct'), (a[2], self.infos, 'png info struct')):
            pp = self.I.val(st, x)
            if isinstance(pp, Ptr) and pp.base is None:
                continue
            loc = self.I.deref(st, pp, fr, e['l'])
            p = self.I.val(st, loc)
            parts = leaves_of(p)
            for c, v in parts:
                if isinstance(v, Ptr) and v.base is None:
                    continue
                if not isinstance(v, Ptr):
                    self.need('C06', st, fr, e['l'], not_(c), 'png_destroy_read_struct releases an undefined pointer (%s)' % kind)
                    continue
                k = v.base.cell
                if k not in cells:
                    raise Unsupported('png_destroy_read_struct')
                self.need('C06', st, fr, e['l'], or_(not_(c), self.get(st, k, 'live')), 'png_destroy_read_struct releases a %s twice' % kind)
                self.set(st, k, 'live', ite(c, FALSE, self.get(st, k, 'live')))
            self.I.store(st, loc, NULL)
            if x is a[0] and all(isinstance(v, Ptr) and v.base is None for c, v in parts):
                # libpng does nothing when the read struct is null
                return

    def h_png_set_longjmp_fn(self, e, st, fr, a):
        c = self.png(e, st, fr, a[0], 'png_jmpbuf')
        return Ptr(Loc(c, ('jmp',)))

    def h_png_init_io(self, e, st, fr, a):
        c = self.png(e, st, fr, a[0], 'png_init_io')
        f = self.target('C08', st, fr, e['l'], a[1], 'FILE', self.files, 'png_init_io')
        self.set(st, c, 'file', const(f if f is not None else 0))

    def h_png_set_sig_bytes(self, e, st, fr, a):
        c = self.png(e, st, fr, a[0], 'png_set_sig_bytes')
        self.set(st, c, 'sig', self.I.num(st, a[1]))

    def pfail(self, e, st, fr, c, what, cond=None):
        f = self.get(st, c, 'file')
        if isconst(f) and cval(f):
            self.need('C06', st, fr, e['l'], self.get(st, cval(f), 'open'), '%s reads from a closed file' % what)
        elif f is ZERO:
            self.need('C08', st, fr, e['l'], False, '%s reads without a data source' % what)
        self.may_fail(st, fr, e['l'], cond if cond is not None else bvar('fail_' + what),
                      lambda s: self.jump(s, fr, e['l'], (c, ('jmp',)), what))

    def h_png_read_info(self, e, st, fr, a):
        c = self.png(e, st, fr, a[0], 'png_read_info')
        self.info(e, st, fr, a[1], 'png_read_info')
        self.pfail(e, st, fr, c, 'png_read_info')
        f, sg = self.get(st, c, 'file'), self.get(st, c, 'sig')
        if isconst(f) and cval(f):
            pos = self.get(st, cval(f), 'pos')
            if pos is ZERO and sg is ZERO:
                # libpng checks the signature itself
                self.pfail(e, st, fr, c, 'png_read_info', not_(and_(SIG, T.eq(NREAD, const(8)))))
        self.set(st, c, 'info', TRUE)

    def getter(self, what, val):
        def g(e, st, fr, a):
            c = self.png(e, st, fr, a[0], what)
            self.info(e, st, fr, a[1], what)
            return ite(st.decide(self.get(st, c, 'info')), val(c, st), ZERO)
        return g

    def h_png_get_image_width(self, e, st, fr, a):
        return self.getter('png_get_image_width', lambda c, s: W)(e, st, fr, a)

    def h_png_get_image_height(self, e, st, fr, a):
        return self.getter('png_get_image_height', lambda c, s: H)(e, st, fr, a)

    def h_png_get_channels(self, e, st, fr, a):
        return self.getter('png_get_channels', lambda c, s: C)(e, st, fr, a)

    def h_png_get_bit_depth(self, e, st, fr, a):
        return self.getter('png_get_bit_depth', lambda c, s: ite(self.byte(c, s), const(8), DEPTH))(e, st, fr, a)

    def h_png_get_color_type(self, e, st, fr, a):
        ct = ite(T.eq(C, ONE), ite(bvar('palette'), const(3), ZERO), ite(T.eq(C, const(2)), const(4), ite(T.eq(C, const(3)), const(2), const(6))))
        return self.getter('png_get_color_type', lambda c, s: ct)(e, st, fr, a)

    def h_png_set_bgr(self, e, st, fr, a):
        self.set(st, self.png(e, st, fr, a[0], e['n']), 'alter', TRUE)

    for _n in ALTER.split():
        locals()['h_' + _n] = h_png_set_bgr
    h_png_set_swap_alpha = h_png_set_invert_mono = h_png_set_invert_alpha = h_png_set_bgr

    def byte(self, c, st):
        """samples are delivered as one byte each"""
        u = self.get(st, c, 'upd')
        return ite(D8, TRUE, ite(DLOW, and_(u, self.get(st, c, 'pack')), and_(u, self.get(st, c, 'strip'))))

    def rowbytes(self, c, st):
        w = mul(W, C)
        if st.decide(self.byte(c, st)) is TRUE:
            return w
        return ite(self.byte(c, st), w, uf('rowbytes_raw', (w, DEPTH), 'n', True))

    def h_png_set_packing(self, e, st, fr, a):
        self.set(st, self.png(e, st, fr, a[0], 'png_set_packing'), 'pack', TRUE)

    def h_png_set_strip_16(self, e, st, fr, a):
        self.set(st, self.png(e, st, fr, a[0], 'png_set_strip_16'), 'strip', TRUE)

    def h_png_set_interlace_handling(self, e, st, fr, a):
        self.set(st, self.png(e, st, fr, a[0], 'png_set_interlace_handling'), 'passes', TRUE)
        return var('passes', True, 1)

    def h_png_read_update_info(self, e, st, fr, a):
        c = self.png(e, st, fr, a[0], 'png_read_update_info')
        self.info(e, st, fr, a[1], 'png_read_update_info')
        self.pfail(e, st, fr, c, 'png_read_update_info')
        self.set(st, c, 'upd', TRUE)

    def h_png_get_rowbytes(self, e, st, fr, a):
        return self.getter('png_get_rowbytes', lambda c, s: self.rowbytes(c, s))(e, st, fr, a)

    def h_png_read_end(self, e, st, fr, a):
        c = self.png(e, st, fr, a[0], 'png_read_end')
        self.pfail(e, st, fr, c, 'png_read_end')

    def sample(self, c, st, y, j):
        return ite(and_(self.byte(c, st), not_(st.store[c].f.get('alter', FALSE))), uf('sample', (y, j), 'n', True), uf('raw', (y, j), 'n', True))

    def h_png_read_image(self, e, st, fr, a, sample=None):
        c = self.png(e, st, fr, a[0], 'png_read_image')
        I = self.I
        l = e['l']
        rows = I.val(st, a[1])
        if not isinstance(rows, Ptr) or rows.base is None:
            self.need('C07', st, fr, l, isinstance(rows, Opq) and False, 'png_read_image gets no row pointers')
            raise Dead()
        rv = I.load(st, rows.base)
        if not isinstance(rv, Vec):
            raise unsup('row pointers', rv)
        o = rows.off if rows.off is not None else ZERO
        self.need('C07', st, fr, l, T.ge(rv.n, add(o, H)), 'png_read_image gets fewer row pointers than the image has rows')
        y, j = T.index_var('y'), T.index_var('j')
        T.RANGES.setdefault(y, H)
        rb = self.rowbytes(c, st)
        T.RANGES.setdefault(j, rb)
        s2 = st.fork(T.lt(y, H))
        p = I.vget(rv, add(o, y))
        if isinstance(p, Term):
            p = I.decode_ptr(p)
        p = I.resolve(s2, p)
        if isinstance(p, Gate):
            for q, oth, cc in ((p.a, p.b, not_(p.c)), (p.b, p.a, p.c)):
                if isinstance(oth, Ptr) and oth.base is None and isinstance(q, Ptr) and q.base is not None:
                    self.forall('C07', st, fr, l, [(y, H)], not_(cc), 'a row pointer handed to png_read_image is null')
                    p = q
                    break
        if not isinstance(p, Ptr):
            raise unsup('row pointer', p)
        if p.base is None:
            self.need('C07', st, fr, l, False, 'a row pointer handed to png_read_image is null')
            raise Dead()
        off = p.off if p.off is not None else ZERO
        tv_ = I.load(st, p.base)
        if not isinstance(tv_, Vec):
            raise unsup('row buffer', tv_)
        self.forall('C07', st, fr, l, [(y, H)], and_(T.ge(off, ZERO), T.ge(tv_.n, add(off, rb))), 'png_read_image writes past the row buffer')
        whole = T.eq(tv_.n, mul(H, rb))
        I.bulk(st, p.base, ((y, H), (j, rb)), add(off, j), (sample or self.sample)(c, st, y, j), fr, l)
        self.pfail(e, st, fr, c, 'png_read_image')

    def rowsample(self, c, st, y, j):
        """a row as it comes: of an interlaced image, only a pass"""
        if self.get(st, c, 'passes') is not FALSE:
            raise Unsupported('reading interlaced passes row by row')
        return ite(bvar('interlaced'), uf('pass_sample', (y, j), 'n', True), self.sample(c, st, y, j))

    def h_png_get_interlace_type(self, e, st, fr, a):
        return self.getter('png_get_interlace_type', lambda c, s: tonum(bvar('interlaced')))(e, st, fr, a)

    def h_png_read_rows(self, e, st, fr, a):
        c = self.png(e, st, fr, a[0], 'png_read_rows')
        if self.I.num(st, a[3]) is not H or self.get(st, c, 'row') is not ZERO:
            raise Unsupported('png_read_rows')
        self.h_png_read_image(e, st, fr, a, self.rowsample)
        self.set(st, c, 'row', H)

    def h_png_read_row(self, e, st, fr, a):
        c = self.png(e, st, fr, a[0], 'png_read_row')
        I, l = self.I, e['l']
        r = self.get(st, c, 'row')
        self.need('C08', st, fr, l, T.lt(r, H), 'png_read_row past the last row is an error')
        self.pfail(e, st, fr, c, 'png_read_row', T.ne(uf('fail_row', (r,), 'n', True), ZERO))
        row = I.val(st, a[1])
        if isinstance(row, Term):
            row = I.decode_ptr(row)
        row = I.resolve(st, row)
        if isinstance(row, Gate):
            for q, oth, cc in ((row.a, row.b, not_(row.c)), (row.b, row.a, row.c)):
                if isinstance(oth, Ptr) and oth.base is None and isinstance(q, Ptr) and q.base is not None:
                    self.need('C07', st, fr, l, not_(cc), 'a row pointer handed to png_read_row is null')
                    row = q
                    break
        if isinstance(row, Ptr) and row.base is None:
            self.need('C07', st, fr, l, False, 'a row pointer handed to png_read_row is null')
            raise Dead()
        if not isinstance(row, Ptr):
            raise unsup('row buffer', row)
        v = I.load(st, row.base)
        if not isinstance(v, Vec):
            raise unsup('row buffer', v)
        n = self.rowbytes(c, st)
        off = row.off if row.off is not None else ZERO
        self.need('C07', st, fr, l, T.ge(v.n, add(off, n)), 'png_read_row writes past the row buffer')
        j = T.index_var('j')
        T.RANGES.setdefault(j, n)
        I.bulk(st, row.base, ((j, n),), add(off, j), self.rowsample(c, st, r, j), fr, l)
        self.set(st, c, 'row', add(r, ONE))

    def forall(self, pid, st, fr, line, ks, good, msg):
        save = list(self.I.binders)
        self.I.binders.extend(ks)
        self.I.event('res', st, fr, line, (pid, not_(good), msg))
        self.I.binders[:] = save

    # ---- libjpeg
    def h_jpeg_std_error(self, e, st, fr, a):
        p = self.I.val(st, a[0])
        l = self.I.deref(st, p, fr, e['l'])
        self.I.store(st, l + 'error_exit', Opq('exit', None))
        return p

    def jp(self, e, st, fr, p, what, least=1):
        p = self.I.val(st, p)
        if not isinstance(p, Ptr) or p.base is None or p.off is not None:
            raise unsup('jpeg struct', p)
        v = self.I.load(st, p.base)
        if isinstance(v, Struct) and v.cls != JD:
            raise Unsupported('jpeg struct')
        s = v.f.get('$state', ZERO if v.f.get('$zero') else UNDEF)
        if s is UNDEF and least == -9:
            s = ZERO
        if s is UNDEF:
            self.need('C06', st, fr, e['l'], False, '%s uses an uninitialised decompressor' % what)
            s = ZERO
        self.need('C06', st, fr, e['l'], T.ge(s, const(least)), '%s uses a decompressor that was not created or was already destroyed' % what)
        return p, p.base, s

    def jset(self, st, l, f, v):
        self.I.store(st, l + f, v)

    def h_jpeg_CreateDecompress(self, e, st, fr, a):
        p, l, s = self.jp(e, st, fr, a[0], 'jpeg_create_decompress', -9)
        self.need('C06', st, fr, e['l'], T.ne(s, ONE), 'the decompressor is created twice')
        v = self.I.load(st, l)
        er = v.f.get('err', NULL if v.f.get('$zero') else UNDEF)
        if (isinstance(er, Ptr) and er.base is None) or er is UNDEF:
            self.need('C08', st, fr, e['l'], False, 'jpeg_create_decompress without an error manager')
        mem = self.I.new_cell(st, Struct('jpeg_memory_mgr', {'alloc_sarray': Opq('lib', self.sarray)}), 'mem')
        self.I.store(st, l, Struct(JD, {'$zero': TRUE, '$state': ONE, 'err': er, 'mem': Ptr(mem), '$file': ZERO}))
        if l not in self.jpegs:
            self.jpegs.append(l)

    def sarray(self, I, e, st, fr, obj, a):
        p, l, s = self.jp(e, st, fr, a[0], 'alloc_sarray')
        n, rows = I.num(st, a[2]), I.num(st, a[3])
        if not isconst(rows) or cval(rows) > 4:
            raise Unsupported('alloc_sarray of %s rows' % T.show(rows))
        rp = []
        for i in range(cval(rows)):
            c = I.new_cell(st, I.fresh_seq(st, fr, n, 'unsigned char', False, 'jpeg row'), 'jpeg row')
            self.arrays.append((l, c))
            rp.append(Ptr(c, ZERO))
        c = I.new_cell(st, vec(rp, 'unsigned char *'), 'jpeg rows')
        self.arrays.append((l, c))
        return Ptr(c, ZERO)

    def h_jpeg_stdio_src(self, e, st, fr, a):
        p, l, s = self.jp(e, st, fr, a[0], 'jpeg_stdio_src')
        f = self.target('C08', st, fr, e['l'], a[1], 'FILE', self.files, 'jpeg_stdio_src')
        self.jset(st, l, '$file', const(f if f is not None else 0))

    def jfail(self, e, st, fr, p, l, what, cond=None):
        f = self.I.load(st, l).f.get('$file', ZERO)
        if isconst(f) and cval(f):
            self.need('C06', st, fr, e['l'], self.get(st, cval(f), 'open'), '%s reads from a closed file' % what)
        elif f is ZERO:
            self.need('C08', st, fr, e['l'], False, '%s reads without a data source' % what)

        def raise_(s1):
            v = self.I.load(s1, l)
            er = self.I.val(s1, v.f.get('err', UNDEF))
            if not isinstance(er, Ptr) or er.base is None:
                raise unsup('jpeg error manager', er)
            x = self.I.load(s1, er.base).f.get('error_exit', UNDEF)
            if isinstance(x, Opq) and x.k == 'exit':
                self.need('C08', s1, fr, e['l'], False, 'an error in %s ends the process (default error_exit)' % what)
                raise Dead()
            if x is UNDEF or (isinstance(x, Ptr) and x.base is None):
                self.need('C08', s1, fr, e['l'], False, 'an error in %s calls an unset error_exit' % what)
                raise Dead()
            n0 = len(self.I.thr)
            self.I.call_value(x, [p], s1, fr, e)
            self.need('C08', s1, fr, e['l'], False, 'error_exit returns: libjpeg continues after a fatal error in %s' % what)
            raise Dead()
        self.may_fail(st, fr, e['l'], cond if cond is not None else bvar('fail_' + what), raise_)

    def h_jpeg_read_header(self, e, st, fr, a):
        p, l, s = self.jp(e, st, fr, a[0], 'jpeg_read_header')
        self.jfail(e, st, fr, p, l, 'jpeg_read_header')
        self.jset(st, l, '$state', const(2))
        for f, v in (('image_width', W), ('image_height', H), ('num_components', C)):
            self.jset(st, l, f, v)
        return ONE

    def h_jpeg_start_decompress(self, e, st, fr, a):
        p, l, s = self.jp(e, st, fr, a[0], 'jpeg_start_decompress', 2)
        f = self.I.load(st, l).f
        odd = set(f) & {'out_color_space', 'jpeg_color_space', 'scale_num', 'scale_denom', 'quantize_colors', 'raw_data_out', 'buffered_image', 'output_gamma'}
        alter = FALSE
        for k in sorted(odd):
            v = f[k]
            if k not in ('out_color_space', 'scale_denom', 'quantize_colors') or not isinstance(v, Term) or v is const(2) and k[0] == 'o':
                raise Unsupported('decompression parameter ' + k)
            # 0 is what an untouched member reads as; samples of another colour space, size or palette are not those of the image
            alter = or_(alter, T.gt(v, ONE) if k[0] == 's' else T.ne(v, ZERO) if k[0] == 'q' else and_(T.ne(v, ZERO), T.ne(v, const(2))))
        self.jset(st, l, '$alter', alter)
        self.jfail(e, st, fr, p, l, 'jpeg_start_decompress')
        self.jset(st, l, '$state', const(3))
        for f, v in (('output_width', W), ('output_height', H), ('output_components', C), ('out_color_components', C), ('output_scanline', ZERO)):
            self.jset(st, l, f, v)
        return ONE

    def h_jpeg_read_scanlines(self, e, st, fr, a):
        p, l, s = self.jp(e, st, fr, a[0], 'jpeg_read_scanlines', 3)
        I = self.I
        if I.num(st, a[2]) is not ONE:
            raise Unsupported('several scanlines at once')
        sc = I.num(st, I.load(st, l + 'output_scanline'))
        self.jfail(e, st, fr, p, l, 'jpeg_read_scanlines', T.ne(uf('fail_scan', (sc,), 'n', True), ZERO))
        q = I.val(st, a[1])
        row = I.val(st, I.load(st, I.deref(st, q, fr, e['l']), fr, e['l']))
        if not isinstance(row, Ptr) or row.base is None:
            if isinstance(row, Ptr) or row is UNDEF:
                self.need('C07', st, fr, e['l'], False, 'jpeg_read_scanlines gets no row buffer')
                raise Dead()
            raise unsup('row buffer', row)
        v = I.load(st, row.base)
        if isinstance(v, Opq) and v.k == 'released':
            self.need('C06', st, fr, e['l'], False, 'jpeg_read_scanlines writes to a released row buffer')
            raise Dead()
        n = mul(W, C)
        off = row.off if row.off is not None else ZERO
        self.need('C07', st, fr, e['l'], T.ge(v.n, add(off, n)), 'jpeg_read_scanlines writes past the row buffer')
        more = st.decide(T.lt(sc, H))
        j = T.index_var('j')
        T.RANGES.setdefault(j, n)
        self.need('C07', st, fr, e['l'], T.lt(sc, H), 'jpeg_read_scanlines past the last row')
        got = uf('sample', (sc, j), 'n', True)
        alter = I.load(st, l).f.get('$alter', FALSE)
        if alter is not FALSE:
            got = ite(alter, uf('other_sample', (sc, j), 'n', True), got)
        I.bulk(st, row.base, ((j, n),), add(off, j), got, fr, e['l'])
        self.jset(st, l, 'output_scanline', add(sc, ONE))
        return ONE

    def h_jpeg_finish_decompress(self, e, st, fr, a):
        p, l, s = self.jp(e, st, fr, a[0], 'jpeg_finish_decompress', 3)
        sc = self.I.num(st, self.I.load(st, l + 'output_scanline'))
        self.need('C08', st, fr, e['l'], T.ge(sc, H), 'jpeg_finish_decompress before every scanline was read is an error')
        self.jfail(e, st, fr, p, l, 'jpeg_finish_decompress')
        self.jset(st, l, '$state', ONE)
        return ONE

    def h_jpeg_abort_decompress(self, e, st, fr, a):
        p, l, s = self.jp(e, st, fr, a[0], 'jpeg_abort_decompress')
        self.jset(st, l, '$state', ONE)

    def h_jpeg_destroy_decompress(self, e, st, fr, a):
        p, l, s = self.jp(e, st, fr, a[0], 'jpeg_destroy_decompress', 0)
        self.jset(st, l, '$state', const(-1))
        for ll, c in self.arrays:
            if ll == l and c.cell in st.store:
                st.store[c.cell] = Opq('released', 'jpeg row buffer')

    h_jpeg_destroy = h_jpeg_destroy_decompress

    # ---- exits
    def exits(self, st, out):
        """(condition that must hold, what) for a state in which the reader was left"""
        for c in self.files:
            if c in st.store:
                out.append(('C06', not_(st.store[c].f['open']), 'the file is still open'))
        for c in self.pngs:
            if c in st.store:
                out.append(('C06', not_(st.store[c].f['live']), 'the png struct is not destroyed'))
        for c in self.infos:
            if c in st.store:
                out.append(('C06', not_(st.store[c].f['live']), 'the png info struct is not destroyed'))
        for c, line in self.heap.items():
            if ('heap', c) in st.store:
                out.append(('C06', not_(st.store[('heap', c)]), 'the buffer allocated at line %d is not released' % line))
        for l in self.jpegs:
            if l.cell in st.store:
                v = self.I.load(st, l)
                out.append(('C06', T.le(v.f.get('$state', ZERO), ZERO), 'the jpeg decompressor is not destroyed'))


DESTS = ('empty', 'rank 3', 'rank 4', 'returned')


def fixed(pc):
    f = {}
    for c in pc:
        for l in (c.args if c.op == 'and' else (c,)):
            if l.op == 'var':
                f[l.args[0]] = True
            elif l.op == 'not' and l.args[0].op == 'var':
                f[l.args[0].args[0]] = False
    return f


class Scen:
    def __init__(self, ctx, path, dest):
        self.ctx, self.path, self.dest = ctx, path, dest
        d = self.d = ctx.drv()
        d.st.assume(TRUE)
        # bit depths libpng delivers
        self.lib = Lib(d, string(path))
        d.I.log_access = True
        self.t = None
        self.total = None
        if dest != 'returned':
            if dest == 'empty':
                self.t = d.new('deepworks::Tensor', [])
            else:
                self.dims = [var('a%d' % k, True, 1) for k in range(int(dest[-1]))]
                self.t = d.tensor('old', self.dims)
                self.total = mul(*self.dims) if len(self.dims) > 1 else self.dims[0]
        mark = len(d.I.thr)
        self.n0 = len(d.I.log)
        args = [string(path)] + ([self.t] if self.t is not None else [])
        try:
            self.r = d.call(IO, args, n=len(args))
            self.normal = d.st
            if self.t is None:
                self.t = d.I.as_loc(d.st, self.r)
        except Dead:
            self.normal = None
        self.thrown = d.I.thr[mark:]
        self.log = d.I.log[self.n0:]

    def judge(self, pid, st_pc, bad, name, where, bd=()):
        """(pc and bad) must be infeasible"""
        ctx = self.ctx
        sub = {}
        if bad is FALSE:
            ctx.ok(name, 'excluded by the path condition', where)
            return
        g = dict(GENS)
        for k, n in bd:
            bad = T.any_(k, n, bad) if k in bad.fv else bad
        pcs = []
        for c in st_pc:
            for k, n in bd:
                if k in c.fv:
                    c = None
                    break
            if c is not None:
                pcs.append(c)
        for k in range(4):
            g['a%d' % k] = lambda r: r.choice([1, 1, 2, 3])
        if bad is TRUE:
            # reached at all?
            got = any(True for _ in ctx.samplers(4, g, ARR, fixed(pcs), tuple(pcs)))
            if got:
                ctx.violation(name, where, dict(path_condition=[T.show(c)[:200] for c in pcs][-12:]))
            else:
                ctx.undecided(name, 'no instance of the path condition among the samples', where)
            return
        ctx.holds(name, not_(bad), where, gens=g, arrgens=ARR, fixed=fixed(pcs), assume=tuple(pcs), n=40)

    def events(self, pid):
        n = 0
        for e in self.log:
            if e.kind == 'res' and e.d[0] == pid:
                self.judge(pid, e.pc, e.d[1], '%s into %s tensor: %s' % (self.path, self.dest, e.d[2]), '%s:%s' % (e.file, e.line), e.bd)
            elif e.kind == 'uaf' and pid == 'C06':
                self.judge(pid, e.pc, TRUE, '%s into %s tensor: %s used after its release' % (self.path, self.dest, e.d), '%s:%s' % (e.file, e.line), e.bd)
            elif e.kind == 'skipdtor' and pid == 'C06':
                self.judge(pid, e.pc, TRUE, '%s into %s tensor: a decoder error jumps over the destructor of %s' % (self.path, self.dest, e.d),
                           '%s:%s' % (e.file, e.line), e.bd)
            elif e.kind == 'nullderef' and pid == 'C06':
                self.judge(pid, e.pc, e.d, '%s into %s tensor: null pointer dereferenced' % (self.path, self.dest), '%s:%s' % (e.file, e.line), e.bd)
            else:
                continue
            n += 1
        return n


ARR = [('old', lambda r, i: float(i) + 0.5)]
R06 = ('typestate analysis over every path of the readers: handles (FILE, png struct, png info struct, jpeg decompressor, row buffers) are tracked from '
       'acquisition through every library call that may fail (setjmp/longjmp and C++ exceptions included) to every exit')
R07 = ('the tensor after a successful read is summarised for symbolic height, width, channels and bit depth and compared with the decoded samples; the '
       'refusal condition of allocated destinations and every access to row buffers and tensor are decided')
R08 = ('every failure result of the C library and of the decoders is followed to the exits of ReadImage: each must end in an exception, none may be '
       'ignored, dereferenced or end the process; extensions outside the supported ones are refused')
PATHS = ('dir.jpg/img.png', 'dir.png/img.jpg', 'img.jpeg')


def scenarios(ctx, dests=DESTS):
    for path in PATHS:
        for dest in dests:
            yield path, dest


@prop('C06', R06)
def c06(ctx):
    w = ctx.where(IO, 2)
    for path, dest in scenarios(ctx):
        nm = '%s into %s tensor' % (path, dest)
        with ctx.section(nm, w):
            s = Scen(ctx, path, dest)
            s.events('C06')
            ends = [('normal return', s.normal)] if s.normal is not None else []
            for i, (t, x) in enumerate(s.thrown):
                ends.append(('exception from %s:%s' % (x.fn.split('::')[-1], x.line), t))
            for k, (what, st) in enumerate(ends):
                obs = []
                s.lib.exits(st, obs)
                for pid, good, msg in obs:
                    good = st.decide(good)
                    s.judge('C06', st.pc, not_(good), '%s, %s (exit %d): %s' % (nm, what, k, msg), w)
            ctx.rule(nm + ': the reader opens a file', bool(s.lib.files) or None, w, 'no modelled resource acquired')


@prop('C07', R07)
def c07(ctx):
    w = ctx.where(IO, 2)
    for path, dest in scenarios(ctx):
        nm = '%s into %s tensor' % (path, dest)
        with ctx.section(nm, w):
            s = Scen(ctx, path, dest)
            s.events('C07')
            g = dict(GENS)
            for k in range(4):
                g['a%d' % k] = lambda r: r.choice([1, 1, 2, 3])
            want = mul(mul(H, W), C)
            if s.normal is None:
                ctx.violation(nm + ': images can be read', w, dict(reason='no normal path'))
                continue
            st = s.normal
            d = s.d
            fx = fixed(st.pc)
            pcs = tuple(st.pc)
            # refusal of a mismatch
            if s.total is not None:
                ctx.holds(nm + ': element counts agree after a successful read', T.eq(s.total, want), w, gens=g, fixed=fx, assume=pcs, arrgens=ARR, n=40)
                lib_err = []
                for i, (t, x) in enumerate(s.thrown):
                    ok = and_(OPEN, SIG, PNGOK, INFOOK, T.eq(NREAD, const(8)), not_(d.I.bool(t, t.store[s.lib.err.cell])))
                    c = st_ = t.decide(and_(ok, T.eq(s.total, want)))
                    f2 = fixed(t.pc)
                    f2.update(open_ok=True, sig_ok=True, png_created=True, info_created=True, nread=8)
                    bad = [k for k in f2 if f2[k] is True and k.startswith('fail_')]
                    if bad or c is FALSE:
                        continue
                    ctx.holds('%s: a matching tensor is not refused (%s:%s)' % (nm, x.fn.split('::')[-1], x.line), not_(c), w, gens=g, fixed=None,
                              assume=tuple(t.pc), arrgens=ARR, n=20)
                    # contents of a refused tensor are untouched
                    err = t.decide(d.I.bool(t, t.store[s.lib.err.cell]))
                    if err is FALSE:
                        o, d.st = d.st, t
                        try:
                            arr, n = d.arr(s.t)
                        finally:
                            d.st = o
                        ctx.eq_arr('%s: a refused tensor keeps its elements (%s:%s)' % (nm, x.fn.split('::')[-1], x.line), arr, n,
                                   lambda i: sel(avar('old', n), i), w, gens=g, arrgens=ARR, fixed=fixed(t.pc), assume=tuple(t.pc))
            o, d.st = d.st, st
            try:
                dims = [d.I.num(st, x) for x in d.dims(s.t)]
                arr, n = d.arr(s.t)
            finally:
                d.st = o
            if s.total is None:
                ctx.rule(nm + ': the allocated shape has three dimensions', len(dims) == 3, w, '%d dimensions' % len(dims))
                for x, y, k in zip(dims, (H, W, C), ('height', 'width', 'channels')):
                    ctx.eq('%s: dimension %s' % (nm, k), x, y, w, gens=g, fixed=fx, assume=pcs)
            else:
                ctx.rule(nm + ': the shape of an allocated tensor is kept', len(dims) == len(s.dims) and all(x is y for x, y in zip(dims, s.dims)) or None,
                         w, 'shape changed')
            ctx.eq(nm + ': element count', n, want, w, gens=g, fixed=fx, assume=pcs)
            wc = mul(W, C)
            ctx.eq_arr(nm + ': element (y*W+x)*C+c is sample (y,x,c)', arr, want,
                       lambda i: uf('sample', (T.idiv(i, wc), T.imod(i, wc)), 'n', True), w, gens=g, arrgens=ARR, fixed=fx, assume=pcs, ns=14)
            from access import bounds
            bounds(ctx, nm + ': accesses', s.log, w, ns=4, gens=g, arrgens=ARR)


@prop('C08', R08)
def c08(ctx):
    w = ctx.where(IO, 2)
    for path, dest in scenarios(ctx):
        nm = '%s into %s tensor' % (path, dest)
        with ctx.section(nm, w):
            s = Scen(ctx, path, dest)
            s.events('C08')
            if s.normal is None:
                continue
            st = s.normal
            e = st.decide(s.d.I.bool(st, st.store[s.lib.err.cell]))
            s.judge('C08', st.pc, e, nm + ': a decoder error never ends in a normal return', w)
            need = [('the file was opened', OPEN)]
            if path.endswith('png'):
                need += [('the signature was read', T.eq(NREAD, const(8))), ('the signature is that of a PNG file', SIG),
                         ('the png struct was created', PNGOK), ('the png info struct was created', INFOOK)]
            for what, c in need:
                s.judge('C08', st.pc, not_(st.decide(c)), '%s: normal return only if %s' % (nm, what), w)
            ctx.rule(nm + ': the reader opens a file', bool(s.lib.files) or None, w, 'no modelled resource acquired')
    for path in ('img.bmp', 'img', 'dir.png/img', 'img.png.txt', 'img.', 'img.jpgx', 'img.xpng', 'img.gif'):
        for dest in ('empty', 'returned'):
            nm = '%s into %s tensor' % (path, dest)
            with ctx.section(nm, w):
                s = Scen(ctx, path, dest)
                ctx.rule(nm + ': unsupported extension is refused', s.normal is None and bool(s.thrown), w, 'a normal return is reachable')
                ctx.rule(nm + ': no file is opened', not s.lib.files, w, 'fopen reached')
