"""The harnesses that decide each property, with their bounds."""
TRUST = ['clang 18 lowers the sources to LLVM IR at -O1 as g++/clang would run them (undefined behaviour aside, which the executor reports)',
         'the symbolic executor (engine/) and Z3; every run cross-checks them by executing concrete inputs natively and comparing all logged values, and replays every counterexample natively',
         'DRAMUtils and nlohmann/json are replaced by stand-ins (stubs/): the upstream packages are not available offline; floating-point values are treated as exact reals',
         'the DRAMPOWER_TESTING and NDEBUG build: internal assert()s are off, as in the repository\'s build']
NOTES = 'Every check compiles /repo/src to LLVM IR, executes the harness in harness/ symbolically and lets Z3 decide each assertion over all input values within the bounds; see DESIGN.md.'
NOTE = 'bounded: holds for every value of the symbolic inputs within the stated bounds (%s); trusts the executor, Z3 and the stand-ins for DRAMUtils/json'
NOT_APPLICABLE = {}
CHECKS = {}
EXPL = 'Bounded symbolic execution: the harness and the repository code it calls are compiled to LLVM IR on this run and executed symbolically on every feasible path; each assertion is discharged by Z3 for all values (queries/unsat below) or folded to true by canonicalisation (asserts_simplified). paths = feasible paths explored to the end; assumed_out = paths cut by an assumption.'
def check(id, harnesses, bounds, assumptions=(), **kw):
    CHECKS[id] = dict(harnesses=harnesses, explanation=EXPL, bounds=bounds, assumptions=list(assumptions), note=NOTE % bounds.split(';')[0][:200], **kw)

# ---- core cycle accounting ---------------------------------------------------------------------------------------
def core(std, n, ranks=1, **kw):
    return dict(name='core_%s_k%d_r%d' % (std.lower(), n, ranks), src='core.cpp', defs=['-DSTD_' + std, '-DNCMD=%d' % n, '-DRANKS=%d' % ranks], split=True, bounds='any %d commands, %d rank(s)' % (n, ranks), **kw)
def skel(std, tag, ops, ranks=1, **kw):
    sk = ','.join('{' + ','.join(x + '_' for x in o.split('|')) + '}' for o in ops.split())
    return dict(name='core_%s_%s' % (std.lower(), tag), src='core.cpp', defs=['-DSTD_' + std, '-DSKEL=' + sk, '-DRANKS=%d' % ranks], split=True, bounds='command skeleton ' + ops, **kw)
ANY = 'ACT|PRE|PREA|RD|RDA|WR|WRA|REFA|REFB|REF2|REFSB|PRESB|SREN|PDEA|PDEP'
REFB = {'DDR4': '', 'DDR5': '|REFSB', 'LPDDR4': '|REFB', 'LPDDR5': '|REFB|REF2', 'LPDDR6': '|REF2'}
COVER = {'DDR4': 'ACT PRE PREA RD RDA WR WRA REFA SREFEN SREFEX PDEA PDXA PDEP PDXP'}
COVER['DDR5'] = COVER['DDR4'] + ' PRESB REFSB'; COVER['LPDDR4'] = COVER['DDR4'] + ' REFB'
COVER['LPDDR5'] = COVER['LPDDR4'] + ' REFP2B DSMEN DSMEX'; COVER['LPDDR6'] = COVER['DDR4'] + ' REFDB'
CORE_ASSUME = ['protocol-legal traces: no ACT/REF on a bank that is open or still precharging/refreshing, no command in power-down/self-refresh except the exit, timestamps do not decrease, exits come no earlier than the (delayed) entry',
               'tRCD <= tRAS, tRCD <= tRFC(pb) <= tRFC(ab), refresh times at least one cycle; tCK = 1',
               'after a power-down exit, the next power-down entry comes at least tRCD after that exit and a read/write with auto-precharge completes at least tRAS after it (the code restarts tRCD/tRAS at the exit: known finding)']
for i, s in enumerate(['DDR4', 'DDR5', 'LPDDR4', 'LPDDR5', 'LPDDR6']):
    H = [core(s, 3, covers=[c for c in COVER[s].split() if c != 'DSMEX']), core(s, 2, 2), core(s, 4, thorough=True), core(s, 3, 2, thorough=True)]
    H += [skel(s, 'pd', 'ACT ACT|PRE|RD%s PDEA PDXA %s' % (REFB[s], ANY), covers=['PDXA'])]
    H += [skel(s, 'pdp', 'ACT PREA|PRE|PRESB PDEP PDXP ACT|PDEP|REFA' + REFB[s], covers=['PDXP'])]
    H += [skel(s, 'ap', 'ACT RDA|WRA %s ACT|PREA|REFA|PDEP' % ANY, covers=['RDA', 'WRA'])]
    if s != 'DDR4': H += [skel(s, 'reopen', 'ACT PRE ACT %s|PREA PDEA PDXA' % REFB[s][1:], covers=['PDXA'])]
    H += [skel(s, 'sr', 'ACT PRE|PREA SREN SREX|DSEN SREX|DSEX|ACT|REFA|PDEP SREX|ACT|PDXP', covers=['SREFEX'])]
    H += [skel(s, 'pd_deep', 'ACT %s PDEA PDXA %s PDEA|PDEP|PREA|RDA PDXA|PDXP|ACT' % (ANY, ANY), thorough=True)]
    check('C%02d' % (i + 1), H, 'every command sequence of length 3 on one rank and 2 on two ranks, plus the listed skeletons of length 4-6, over two target banks of %s; 10-bit inter-command distances, 8-bit timing parameters; thorough: length 4 / 3' % {'DDR4': '2', 'DDR5': '4', 'LPDDR4': '2', 'LPDDR5': '16', 'LPDDR6': '3'}[s], CORE_ASSUME,
          finding_harnesses=[dict(skel(s, 'pdx_' + t, 'ACT PDEA PDXA ' + o), defs=skel(s, '', 'ACT PDEA PDXA ' + o)['defs'] + ['-DPDX_FREE']) for t, o in [('rda', 'RDA'), ('pde', 'PDEA')]])

# ---- bus -----------------------------------------------------------------------------------------------------------
def bus(w, dr, n, maxb=2, **kw):
    return dict(name='bus_w%d_dr%d_k%d' % (w, dr, n), src='bus.cpp', defs=['-DW=%d' % w, '-DDR=%d' % dr, '-DNOPS=%d' % n, '-DMAXB=%d' % maxb], split=True, bounds='%d operations, width %d, data rate %d, bursts of at most %d beats' % (n, w, dr, maxb), **kw)
check('B01', [bus(3, 1, 3, covers=['load', 'disable', 'enable']), bus(4, 2, 3), bus(27, 1, 2), bus(8, 2, 2, 8), bus(2, 1, 4, thorough=True), bus(2, 2, 4, thorough=True), bus(2, 2, 5, thorough=True)],
      'any 3 operations (burst load of 1-2 beats, disable, enable, intermediate query) on buses of width 3 and 4 at data rates 1 and 2, any 2 operations at widths 27 and 8 (bursts up to 8 beats); 12-bit distances, arbitrary data bits, both idle levels, both load interfaces, bus initially on or off; thorough: 4 and 5 operations',
      ['bursts do not overlap: a load comes no earlier than the end of the previous burst', 'an enable comes strictly after the disable it undoes'])

# ---- interface -----------------------------------------------------------------------------------------------------
TYPES = {'DDR4': 'ACT PRE PREA RD RDA WR WRA REFA SREFEN SREFEX PDEA PDEP PDXA PDXP END_OF_SIMULATION'}
TYPES['DDR5'] = TYPES['DDR4'].replace('SREFEX ', '').replace(' END_OF_SIMULATION', '') + ' PRESB REFSB'
TYPES['LPDDR4'] = TYPES['DDR4'] + ' REFB'
TYPES['LPDDR5'] = TYPES['DDR4'] + ' REFB DSMEN DSMEX'
TYPES['LPDDR6'] = TYPES['DDR4'] + ' REFDB NOP'
def iface(std, tag, k, cmds, beats, defs=(), **kw):
    return dict(name='if_%s_%s' % (std.lower(), tag), src='iface.cpp', split=True, defs=['-DSTD_' + std, '-DNCMD=%d' % k, '-DBEATS=' + ','.join(map(str, beats)),
                '-DCMDS=' + ','.join('C::' + c for c in cmds.split())] + list(defs), bounds='%d commands out of %s, burst lengths %s %s' % (k, cmds, beats, ' '.join(defs)), **kw)
for i, s in enumerate(['DDR4', 'DDR5', 'LPDDR4', 'LPDDR5', 'LPDDR6']):
    H = []
    if s == 'LPDDR5':
        for arch in range(3): H += [iface(s, 'cmd_arch%d' % arch, 1, TYPES[s] + (' REFP2B' if arch < 2 else ''), [0], ['-DARCH=%d' % arch])]
        H += [iface(s, 'cmd', 2, 'ACT PREA RD WRA SREFEN PDXA', [0])]
    elif s == 'LPDDR6': H += [iface(s, 'cmd1', 1, TYPES[s], [0]), iface(s, 'cmd', 2, 'ACT PREA RD WRA PDXA', [0])]
    else: H += [iface(s, 'cmd', 2, TYPES[s], [0])]
    if s == 'LPDDR6':
        H += [iface(s, 'data', 1, 'RD WR', [24, 48], ['-DMETA']), iface(s, 'data2', 2, 'RD WR', [24])]
        H += [iface(s, 'dbi', 1, 'RD WR', [24], ['-DDBI_OPS', '-DTFIX'])]
    else:
        H += [iface(s, 'data', 2, 'RD WRA', [2, 4]), iface(s, 'bl', 1, 'RD WR', {'DDR4': [4, 8], 'DDR5': [8, 32]}.get(s, [16, 32])), iface(s, 'x16', 2, 'RD RDA WR WRA', [2], ['-DLANES=2'])]
        if s != 'DDR5': H += [iface(s, 'dbi', 2, 'RD WR', [1, 2], ['-DDBI_OPS', '-DDR=1']), iface(s, 'dbi4', 1, 'RD WR', [4], ['-DDBI_OPS', '-DDR=2'])]
    bl = {'DDR4': [4, 8], 'DDR5': [8, 16, 32], 'LPDDR6': [24, 48]}.get(s, [16, 32])
    H += [iface(s, 'blmix', 2, 'RD' if s == 'LPDDR6' else 'RD WR', bl, ['-DCONSTD']), iface(s, 'blmix3', 3, 'RD WR', bl, ['-DCONSTD'], thorough=True)]
    if s != 'LPDDR6': H += [iface(s, 'dev2', 2, 'RD WR', [4], ['-DDEVICES=2', '-DDR=4'] + (['-DWCKR=2'] if s == 'LPDDR5' else [])), iface(s, 'data3', 3, 'RD RDA WR WRA', [2, 8], thorough=True)]
    H += [iface(s, 'cmd3', 3, 'ACT RDA WR REFA SREFEN PDXP' + (' PRE REFB PDEA' if s != 'LPDDR6' and s != 'DDR4' and s != 'DDR5' else ' PRE'), [0], thorough=True)]
    check('I%02d' % (i + 1), H, 'any %s commands out of every type the interface accepts (LPDDR5/6: one of every type, two out of a mixed set), arbitrary coordinates (19 row, 17 column, 4 bank, 3 bank group bits), one data burst of up to %s per command with arbitrary content, 12-bit distances and query time, x8 and x16 devices, 1-2 devices, DBI switched per command (bursts of 1-4 beats%s); thorough: three commands' % ('two', '48 beats' if s == 'LPDDR6' else '32 beats' if s != 'DDR4' else '8 beats', '; 24 beats with one 16-bit group arbitrary at a time' if s == 'LPDDR6' else ''),
          ['bursts on one bus do not overlap', 'lines a command leaves undefined (V, X) are expected at the idle level', 'strobe clocks are compared when no burst is in flight at the query', 'WCK runs at dataRate / WCK2CK edges per cycle, which is at least 2'] + (['DDR4: the first command comes after time 0 (a burst at 0 counts as seamless)'] if s == 'DDR4' else []))

# ---- energy ----------------------------------------------------------------------------------------------------------
STDS = ['DDR4', 'DDR5', 'LPDDR4', 'LPDDR5', 'LPDDR6']
REALS = ['doubles are treated as exact reals: rounding is outside the claim', 'tCK > 0, tRAS, tRP, tRFC, tREFI at least one cycle, rho in [0, 1]']
check('E01', [dict(name='energy_' + s.lower(), src='energy.cpp', defs=['-DSTD_' + s], bounds='%s, 5 organisations' % s, covers=['end']) for s in STDS],
      'every standard, five organisations each (1-16 banks, 1-2 ranks, 0-2 devices, burst length / data rate / refresh mode / optional parameter variants); every current, voltage, tCK and rho an arbitrary real, timings up to 16 bits, every statistics counter up to 32 bits', REALS)
check('E02', [dict(name='ienergy_' + s.lower(), src='ienergy.cpp', defs=['-DSTD_' + s], bounds='%s, 6 termination patterns, widths 8 and 16, data rates 1, 2, 8' % s, covers=['end']) for s in STDS],
      'every standard: six termination patterns, device widths 8 and 16, data rates 1, 2 and 8; every impedance, dynamic energy, voltage and tCK an arbitrary real, every pin statistic up to 32 bits', REALS[:1] + ['resistances are positive'])

# ---- values ----------------------------------------------------------------------------------------------------------
check('A01', [dict(name='agg', src='agg.cpp', split=True, bounds='0-2 banks and ranks (energies: 0-3 banks)', covers=['equality', 'addition', 'bus arithmetic', 'store', 'energy'])],
      'objects with 0-2 banks and ranks (energies: 0-3 banks); every 64-bit field and every energy component arbitrary', REALS[:1])

# ---- checkpoints -------------------------------------------------------------------------------------------------------
def restored(h):
    return dict(h, name=h['name'] + '_restore', defs=h['defs'] + ['-DRESTORE'], bounds=h['bounds'] + ', one checkpoint and restore at any point', covers=['restored'])
H = []
for s in STDS:
    H += [restored(core(s, 2)), restored(core(s, 2, 2, thorough=True)), restored(core(s, 3, thorough=True)),
          restored(skel(s, 'pd', 'ACT PDEA PDXA %s' % ANY)), restored(skel(s, 'ref', 'REFA%s ACT|PDEP|SREN %s' % (REFB[s], ANY))), restored(skel(s, 'sr', 'SREN DSEN|SREX SREX|DSEX|ACT|PDEP'))]
check('S01', H, 'any 2 commands on one rank and the listed skeletons of length 3-4 for every standard, one checkpoint at any point (after a query at an arbitrary time) restored into a new core; 10-bit distances, 8-bit timing parameters; thorough: length 3, two ranks', CORE_ASSUME)
H = []
for s in STDS:
    bl = {'DDR4': [4, 8], 'LPDDR6': [24, 48]}.get(s, [16, 32])
    H += [restored(iface(s, 'data', 2, 'RD WR', [24] if s == 'LPDDR6' else [2, 4])), restored(iface(s, 'blmix', 2, 'RD' if s == 'LPDDR6' else 'RD WR', bl, ['-DCONSTD'])), restored(iface(s, 'cmd', 2, 'ACT PREA RD WRA', [0]))]
    if s not in ('DDR5', 'LPDDR6'): H += [restored(iface(s, 'dbi', 2, 'RD WR', [1, 2], ['-DDBI_OPS', '-DDR=1', '-DTFIX'])), restored(iface(s, 'dbit', 2, 'RD WR', [1, 2], ['-DDBI_OPS', '-DDR=1'], thorough=True))]
check('S02', H, '2 commands (reads and writes of two burst lengths with arbitrary data, DBI switched per burst, or commands without data) for every standard, one checkpoint after the first or second restored into a new interface, arbitrary query time', ['bursts on one bus do not overlap', 'strobe clocks are compared when no burst is in flight at the query'])

# ---- data bus inversion ------------------------------------------------------------------------------------------------
def dbi(name, n, *d, **kw):
    return dict(name='dbi_' + name, src='dbi.cpp', defs=['-DNOPS=%d' % n] + ['-D' + x for x in d], split=True, bounds='%d operations, %s' % (n, ' '.join(d)), **kw)
L8 = ['T=uint8_t', 'SUB=1', 'IDLE=L']; H8 = ['T=uint8_t', 'SUB=1', 'IDLE=H']
check('N01', [dbi('static_l', 2, *L8, 'CPW=1', 'MAXB=3', covers=['read', 'write', 'reset', 'restored']), dbi('static_h', 3, *H8, 'CPW=1', 'MAXB=2'), dbi('static_wide', 2, *L8, 'CPW=2', 'MAXB=2'),
              dbi('static_u16', 2, 'T=uint16_t', 'SUB=1', 'IDLE=L', 'CPW=1', 'MAXB=2'), dbi('absolute', 2, 'T=uint8_t', 'SUB=2', 'IDLE=L', 'MAXB=3'),
              dbi('dyn_l', 3, *L8, 'CPW=1', 'MAXB=2', 'THR=4'), dbi('dyn_h', 2, *H8, 'CPW=2', 'MAXB=1', 'THR=3'), dbi('dyn_k3', 3, *L8, 'CPW=1', 'MAXB=1', 'THR=4'),
              dbi('static_l_k3', 3, *L8, 'CPW=1', 'MAXB=3', thorough=True), dbi('static_wide_k3', 3, *L8, 'CPW=2', 'MAXB=2', thorough=True), dbi('static_l_k4', 4, *L8, 'CPW=1', 'MAXB=2', thorough=True), dbi('dyn_l_k4', 4, *L8, 'CPW=1', 'MAXB=2', 'THR=4', thorough=True)],
      'any 2-3 operations (read or write burst of 1-3 beats with arbitrary data, reset, switching on or off, checkpoint and restore), one or two chunks per beat or no width, 8- and 16-bit chunks, both idle levels, static inversion and thresholds 3 and 4; 8-bit distances; thorough: 4 operations', ['bursts of one direction do not overlap'])

# ---- memory specifications ---------------------------------------------------------------------------------------------
check('M01', [dict(name='memspec_' + s.lower(), src='memspec.cpp', defs=['-DSTD_' + s], split=True, bounds=s, covers=['end']) for s in STDS],
      'every 32-bit value of every count and timing parameter, real-valued clock period, currents and factors; all combinations of optional fields; burst lengths 4-48, data rates 1-8, WCK ratios 1, 2, 4, 1-9 bank organisations per standard', REALS[:1] + ['LPDDR5 per2BankOffset is not part of the claim: the library keeps its fixed value 8'])

# ---- DRAM objects --------------------------------------------------------------------------------------------------------
def dram(std, tag, sk, defs=(), **kw):
    skel = ','.join('{' + ','.join(x + ('_' if x not in ('QUERY', 'SAVE', 'COPY', 'COPYSRC', 'MOVE') else '') for x in o.split('|')) + '}' for o in sk.split())
    return dict(name='dram_%s_%s' % (std.lower(), tag), src='dram.cpp', split=True, defs=['-DSTD_' + std, '-DSKEL=' + skel] + list(defs), bounds='operations %s %s' % (sk, ' '.join(defs)), **kw)
H = []; H2 = []
for s in STDS:
    m = '|META' if s == 'LPDDR6' else ''; x = ('' if s == 'DDR5' else '|DBI') + m
    H += [dram(s, 'parts', 'ACT|RD|REFA|PDEP QUERY|RDA PREA|WR', ['-DPARTS', '-DTOG', '-DGAP=30']), dram(s, 'refsave', 'REFA|PDEP|RDA QUERY SAVE PDXP|ACT'), dram(s, 'save', 'META WR|ACT SAVE ACT' if s == 'LPDDR6' else 'ACT%s WR|PREA%s SAVE RD|ACT' % (x, x), ['-DGAP=30'] if s == 'LPDDR6' else [])]
    if s == 'LPDDR6': H += [dram(s, 'savedbi', 'DBI ACT|META SAVE WR'), dram(s, 'saverd', 'META ACT SAVE RD')]
    H2 += [dram(s, 'copy', 'ACT|REFA%s COPY|COPYSRC|MOVE WR|RDA|PREA%s' % (x, m)), dram(s, 'copysave', 'ACT%s COPY|MOVE SAVE WR' % x)]
    if s != 'DDR5': H2 += [dram(s, 'copydbi', 'DBI COPY|COPYSRC|MOVE DBI WR')]
check('D01', H, 'operations at each of 3-4 positions out of the listed ones (commands, commands to the core or the interface only, DBI and metadata settings, intermediate queries, checkpoints), 8-bit distances, arbitrary data, row and column bits; query at the last command or up to 10 bits later; data-bus and toggling-rate mode', ['two ranks, one bank in use; electrical parameters fixed (E01 and E02 cover them)', 'the last command time counts delayed effects carried out by a later command or query'])
check('D02', H2, 'a copy or move after an arbitrary command or setting, one or two operations on either object afterwards, the other one kept or destroyed; 8-bit distances, arbitrary data bits', ['assignment operators are implicitly deleted in the code'])
