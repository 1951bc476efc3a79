"""C11 Work and absolute coordinates."""
from symx.registry import harness
from harness.common import code, machine, reals, check_pos, check_posdict, CS_WORDS

AXSETS = ['XYZ', 'XYZABC', 'XY', 'XYZABCUVW']


@harness('C11', cases=[{'axes': a, 'cs': c, 'unit': u} for a in AXSETS for c in range(1, 10) for u in ('mm', 'inch')],
         bounds='four axis sets, machines in millimetres and inches, nine coordinate systems, any offsets and positions (|v| <= 10000)')
def inverse(ctx, case):
    axes = case['axes']
    start, off, tmp = reals(ctx, 's', axes), reals(ctx, 'o', axes), reals(ctx, 't', axes)
    m = machine(ctx, start, cs=case['cs'], cs_offset=off, temp=tmp, axes=axes, inch=case['unit'] == 'inch')
    for i in range(1, 10):
        if i != case['cs']:
            m.state.coord_systems[i].offset.update(**dict((a, 1000.0 * i) for a in axes))
    work = dict((a, start[a] - off[a] - tmp[a]) for a in axes)
    check_posdict(ctx, m.pos.values, work, 'work position')
    check_posdict(ctx, m.abs_pos.values, start, 'reading the work position changes nothing')
    pv = reals(ctx, 'p', axes)
    p = m.Position(**pv)
    w = m.abs2work(p)
    check_posdict(ctx, w.values, dict((a, pv[a] - off[a] - tmp[a]) for a in axes), 'abs2work')
    check_posdict(ctx, m.work2abs(w).values, pv, 'work2abs(abs2work(p))')
    a_ = m.work2abs(p)
    check_posdict(ctx, a_.values, dict((a, pv[a] + off[a] + tmp[a]) for a in axes), 'work2abs')
    check_posdict(ctx, m.abs2work(a_).values, pv, 'abs2work(work2abs(p))')
    check_posdict(ctx, p.values, pv, 'the position converted is unchanged')
    check_posdict(ctx, m.abs_pos.values, start, 'converting does not move the machine')
    check_posdict(ctx, m.state.coord_systems[case['cs']].offset.values, off, 'converting does not change the offset')
    check_posdict(ctx, m.state.offset.values, tmp, 'converting does not change the temporary offset')
    m.pos = p
    check_posdict(ctx, m.pos.values, pv, 'position that was set')
    check_posdict(ctx, m.abs_pos.values, dict((a, pv[a] + off[a] + tmp[a]) for a in axes), 'absolute position that was set')


@harness('C11', cases=[{'a': a, 'b': b} for a in range(1, 10) for b in range(1, 10)],
         bounds='every pair of successive selections of the nine systems, any offsets')
def select(ctx, case):
    start, tmp = reals(ctx, 's', 'XYZ'), reals(ctx, 't', 'XYZ')
    m = machine(ctx, start, temp=tmp)
    offs = {}
    for i in range(1, 10):
        offs[i] = reals(ctx, 'o%d' % i, 'XYZ') if i in (case['a'], case['b']) else dict((a, 100.0 * i) for a in 'XYZ')
        m.state.coord_systems[i].offset.update(**offs[i])
    for n in (case['a'], case['b']):
        m.process_gcodes(code(ctx, CS_WORDS[n - 1]))
        check_posdict(ctx, m.abs_pos.values, start, 'selecting a system does not move')
        check_posdict(ctx, m.pos.values, dict((a, start[a] - offs[n][a] - tmp[a]) for a in 'XYZ'), 'work position in the selected system')
        m.process_gcodes(code(ctx, 'G94'), code(ctx, 'M3'))
        check_posdict(ctx, m.pos.values, dict((a, start[a] - offs[n][a] - tmp[a]) for a in 'XYZ'), 'work position after other modes')
    v = reals(ctx, 'v', 'XY')
    m.process_gcodes(ctx.lib.gcodes.GCodeRapidMove(**v))
    o = offs[case['b']]
    check_posdict(ctx, m.abs_pos.values, {'X': v['X'] + o['X'] + tmp['X'], 'Y': v['Y'] + o['Y'] + tmp['Y'], 'Z': start['Z']}, 'move in the selected system')
    for i in range(1, 10):
        check_posdict(ctx, m.state.coord_systems[i].offset.values, offs[i], 'offsets are unchanged')


@harness('C11', cases=[{'axes': a, 'how': h, 'unit': u} for a in AXSETS for h in ('none', 'gone', 'null') for u in ('mm', 'inch')],
         bounds='no coordinate system active (none selected, or its entry missing), or a NullMachine; any temporary offset and positions')
def no_system(ctx, case):
    axes = case['axes']
    start, tmp, pv = reals(ctx, 's', axes), reals(ctx, 't', axes), reals(ctx, 'p', axes)
    if case['how'] == 'null':
        cls = type('N', (ctx.lib.machine.NullMachine,), {'axes': set(axes)})
        m = cls()
        m.abs_pos = m.Position(**start)
        m.state.offset.update(**tmp)
    else:
        m = machine(ctx, start, temp=tmp, axes=axes, inch=case['unit'] == 'inch')
        for i in range(1, 10):
            m.state.coord_systems[i].offset.update(**dict((a, 1000.0 * i) for a in axes))
        if case['how'] == 'none':
            m.state.cur_coord_sys = None
        else:
            del m.state.coord_systems[1]
    check_posdict(ctx, m.pos.values, dict((a, start[a] - tmp[a]) for a in axes), 'work position')
    p = m.Position(**pv)
    w = m.abs2work(p)
    check_posdict(ctx, w.values, dict((a, pv[a] - tmp[a]) for a in axes), 'abs2work')
    check_posdict(ctx, m.work2abs(w).values, pv, 'work2abs(abs2work(p))')
    check_posdict(ctx, m.abs2work(m.work2abs(p)).values, pv, 'abs2work(work2abs(p))')
    m.pos = p
    check_posdict(ctx, m.abs_pos.values, dict((a, pv[a] + tmp[a]) for a in axes), 'absolute position that was set')
    check_posdict(ctx, m.pos.values, pv, 'position that was set')
