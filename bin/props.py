"""The properties (source of properties.jsonl) -- see gen.py."""
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(observe))))

SRC = 'src/DRAMPower/DRAMPower/'
def core(id, std, low, extra):
    prop(id, '%s core: state residency and command counts match the command trace' % std,
        'For every protocol-legal %s command trace and every query time, the reported per-bank and per-rank cycles in each state (active, precharged, active/precharge power-down, self-refresh%s) and the command counters equal those of the trace interpreted with the configured timings: auto-precharges take effect at max(ACT+tRAS, command+precharge offset), refreshes keep banks open for their refresh time, power-down entry is delayed until tRCD/tRP/refresh are over, and exactly the banks that were open before a power-down are reopened by its exit. '
        'The state cycles of a rank and of a bank always add up to the elapsed time. Querying statistics never changes later results.%s' % (std, ', deep sleep' if std == 'LPDDR5' else '', ''),
        ['histories', 'inputs', 'configurations'], 'every legal command sequence, every timestamp spacing (including zero and back-to-back), every timing parameter value, every query time',
        'The upstream tests replay a few fixed traces with one timing set each; orderings of delayed effects (auto-precharge, refresh end, delayed power-down entry) that coincide with other commands are not reached.',
        [SRC + 'standards/%s/%sCore.cpp' % (low, std), SRC + 'util/ImplicitCommandHandler.h', SRC + 'dram/Rank.cpp', SRC + 'dram/Bank.h', SRC + 'util/cycle_stats.h'],
        [('command handlers', SRC + 'standards/%s/%sCore.cpp' % (low, std)), ('delayed effects in time order', SRC + 'util/ImplicitCommandHandler.h'), ('interval accounting', SRC + 'util/cycle_stats.h')],
        [('bank/rank intervals', 'start/end/accumulated length of each state', SRC + 'dram/Bank.h')], ['getWindowStats of the core (bank[], rank_total[])'])
core('C01', 'DDR4', 'ddr4', '')
core('C02', 'DDR5', 'ddr5', '')
core('C03', 'LPDDR4', 'lpddr4', '')
core('C04', 'LPDDR5', 'lpddr5', '')
core('C05', 'LPDDR6', 'lpddr6', '')

U = SRC + 'util/'
prop('B01', 'Bus: switching statistics equal those of the driven waveform', 'For every history of burst loads, disables, enables and intermediate queries on a bus, the statistics reported for [0, t) equal those of the waveform obtained by writing down every beat: ones and zeroes per line and beat, rising and falling edges against the previous beat (idle level between bursts, back-to-back bursts seamless), nothing while disabled, bursts truncated at the query; and querying never changes later results.',
     ['histories', 'inputs', 'configurations'], 'every history, every burst content, length and spacing, width, data rate, idle level and query time',
     'The upstream tests check single bursts and a few fixed pairs; the pending-statistics machinery depends on coincidences (query at the first or last beat, back-to-back bursts, disable inside a burst).',
     [U + 'bus.h', U + 'burst_storage.h', U + 'pending_stats.h', U + 'sub_bitset.h', U + 'binary_ops.h', U + 'bus_types.h'],
     [('pending last-beat statistics', U + 'bus.h'), ('burst window and last burst', U + 'burst_storage.h')], [('pending_stats', 'statistics of the last beat, added once time passes it', U + 'pending_stats.h')], ['Bus::get_stats'])

def iface(id, std, low, extra):
    I = SRC + 'standards/%s/%sInterface' % (low, std)
    prop(id, '%s interface: pin statistics match the command and data trace' % std,
        'For every sequence of %s commands with any coordinates, timestamps and data, the statistics of the command bus, the data buses, the DBI signalling, the clock and the strobes (DQS/WCK) for any query time equal those of the waveform the standard\'s command truth table and the transferred data define: each command drives exactly its encoded beats (row, column, bank and bank group bits, burst-length and auto-precharge flags, idle level on don\'t-care lines), each burst drives its data bits%s, strobes run exactly for the bursts, and no legal command throws.' % (std, extra),
        ['inputs', 'histories', 'configurations'], 'every command, coordinate, data content, spacing, burst length, device width and query time; DBI on or off per burst',
        'The upstream tests check single commands with all-zero coordinates and a few hand-computed bursts; a swapped address line, a wrong burst-length override or an inversion decision at the tie shows only for particular bits.',
        [I + '.cpp', SRC + 'command/Pattern.cpp', SRC + 'util/PatternHandler.h', SRC + 'util/databus.h', SRC + 'util/dbi.h', SRC + 'util/dbialgos.h', SRC + 'util/clock.h', SRC + 'util/pin.h'],
        [('pattern registration and overrides', I + '.cpp'), ('bit encoding', SRC + 'command/Pattern.cpp'), ('data bus inversion', SRC + 'util/dbi.h')], [('command, data, DBI, clock and strobe state', 'everything the interface accumulates', I + '.h')], ['getWindowStats of the interface'])
inv = ' (inverted per byte, with the DBI pin driven, when DBI is on and inversion reduces the terminated level)'
iface('I01', 'DDR4', 'ddr4', inv + ', seamless bursts are counted per rank')
iface('I02', 'DDR5', 'ddr5', '')
iface('I03', 'LPDDR4', 'lpddr4', inv)
iface('I04', 'LPDDR5', 'lpddr5', inv)
iface('I05', 'LPDDR6', 'lpddr6', ' together with metadata and inversion flags in the 24-beat frame, and the parity bit when enabled')

ST = SRC + 'standards/'
stds = ['ddr4', 'ddr5', 'lpddr4', 'lpddr5', 'lpddr6']
def std_files(fmt): return [ST + '%s/%s' % (l, fmt % l.upper()) for l in stds]
prop('E01', 'Core energy equals the bank-wise current model', 'For every statistics content and every electrical and timing specification, every component calcCoreEnergy reports for every standard (DDR4, DDR5, LPDDR4, LPDDR5, LPDDR6) equals the bank-wise current model evaluated from the raw specification: activation, precharge, read, write, auto-precharge, background, each refresh kind, power-down, self-refresh and deep-sleep energy per bank, rank and device, summed over all voltage domains, with tBurst = burst length / data rate exactly, the refresh currents and times of the configured refresh mode, the optional parameters defaulted as documented, and shared energy counted once per device.',
     ['inputs', 'configurations'], 'every value of every current, voltage, clock period, timing parameter, bank-wise factor and statistics counter; several bank/group/rank/device organisations and refresh modes',
     'The upstream tests compare a few totals for one parameter set each, at 1 bank group or 1 device; swapped currents that happen to be equal in the test specification, a missing device factor or an integer division go unnoticed.',
     std_files('core_calculation_%s.cpp') + [SRC + 'memspec/MemSpec%s.cpp' % l.upper() for l in stds], [('energy formulas', ST + 'ddr4/core_calculation_DDR4.cpp'), ('parameter derivation', SRC + 'memspec/MemSpecDDR4.cpp')], [], ['calcCoreEnergy / Calculation_*::calcEnergy'])
prop('E02', 'Interface energy equals the switching and termination model', 'For every pin statistics content and every impedance specification, every component calcInterfaceEnergy reports for every standard equals the signalling model: static energy only on terminated lines (from the level that draws current), dynamic energy per charged transition, for command bus, read and write data, DBI, clock, DQS/WCK and (DDR4) pre/postambles, in data-bus mode and in toggling-rate mode alike, assigned to controller or DRAM according to who drives the line.',
     ['inputs', 'configurations'], 'every value of every impedance, voltage, dynamic energy, clock period and pin statistic; termination flags, device widths and data rates',
     'The upstream tests use one impedance set with equal values; a wrong termination flag, resistance or edge count is invisible there.',
     std_files('interface_calculation_%s.cpp') + [SRC + 'data/energy.h'], [('interface energy formulas', ST + 'ddr4/interface_calculation_DDR4.cpp')], [], ['calcInterfaceEnergy / InterfaceCalculation_*::calculateEnergy'])

prop('A01', 'Statistics and energies behave as values: equality, sums, totals, serialisation', 'For every content: two statistics objects compare equal exactly when every counter of every bank, rank and bus is equal; adding statistics adds every field and keeps the longer bank and rank lists; bus statistics add, subtract and scale field by field; writing a statistics object to a stream and reading it back reproduces every field and consumes the stream exactly; the aggregated bank energies and the totals of core and interface energies are the sums of all their components, each counted once, and energies add component-wise.',
     ['inputs'], 'every value of every counter and energy component; 0-2 banks and ranks (energies: 0-3 banks), different sizes on both sides',
     'The upstream tests add and compare a handful of values; a field left out of a comparison, a sum or the stream is invisible as long as it is zero or equal in the samples.',
     [SRC + 'data/stats.h', SRC + 'data/energy.h', SRC + 'data/energy.cpp', SRC + 'util/bus_types.h'], [('statistics arithmetic', SRC + 'data/stats.h'), ('energy totals', SRC + 'data/energy.cpp')], [], ['operator==, operator+=, serialize, deserialize, total, aggregated_bank_energy'])
CK = 'The upstream tests restore after one fixed trace each; a member that is not written matters only for the traces in which it is non-default at the checkpoint and used afterwards.'
prop('S01', 'Core checkpoint: a restored core continues exactly like the original', 'For every protocol-legal command trace and every point at which the core reports itself serialisable, a new core restored from the checkpoint reports the same statistics at that time and at every later time, for every continuation of the trace; the checkpoint is read completely; and the core reports itself serialisable exactly when no delayed effect (auto-precharge, refresh end, delayed entry) is pending.',
     ['histories', 'crash_points', 'inputs'], 'every trace prefix, every checkpoint, every continuation, timing parameter and query time; every standard', CK,
     [SRC + 'standards/ddr4/DDR4Core.cpp', SRC + 'standards/ddr5/DDR5Core.cpp', SRC + 'standards/lpddr4/LPDDR4Core.cpp', SRC + 'standards/lpddr5/LPDDR5Core.cpp', SRC + 'standards/lpddr6/LPDDR6Core.cpp', SRC + 'dram/Rank.cpp', SRC + 'dram/Bank.h', SRC + 'util/cycle_stats.h', SRC + 'util/ImplicitCommandHandler.h'],
     [('core serialisation', SRC + 'dram/Rank.cpp'), ('serialisable only when idle', SRC + 'util/ImplicitCommandHandler.h')], [('bank/rank intervals and earliest-entry times', 'all of it is in the checkpoint', SRC + 'dram/Rank.cpp')], ['serialize, deserialize, isSerializable, getWindowStats of the core'])
prop('S02', 'Interface checkpoint: a restored interface continues exactly like the original', 'For every sequence of commands and bursts and every point of it, a new interface restored from the checkpoint reports, for every continuation and every query time, the statistics of the uninterrupted waveform on every bus, DBI pin, clock and strobe: bursts in flight, levels on don\'t-care lines, DBI state and inversions, clock state, metadata and per-rank counters survive; and the checkpoint is read completely.',
     ['histories', 'crash_points', 'inputs'], 'every trace prefix, checkpoint, continuation, data content, burst length, DBI state and query time; every standard', CK,
     [ST + '%s/%sInterface.cpp' % (l, l.upper()) for l in stds] + [U + 'bus.h', U + 'burst_storage.h', U + 'databus.h', U + 'dbi.h', U + 'pin.h', U + 'clock.h', U + 'pending_stats.h', U + 'PatternHandler.h'],
     [('interface serialisation', ST + 'ddr4/DDR4Interface.cpp'), ('bursts in flight', U + 'burst_storage.h')], [('bursts, pending statistics, DBI inversions, clock start', 'all of it is in the checkpoint', U + 'bus.h')], ['serialize, deserialize, getWindowStats of the interface'])

prop('N01', 'Data bus inversion: inverted data and pin changes follow the inversion rule', 'For every history of bursts in either direction, resets, enable changes and checkpoints of a DBI object: it converts data exactly when enabled; a chunk is inverted exactly when the static rule (more bits away from the idle level than at it) or the dynamic rule (more than the threshold of lines would change against the previous transmitted beat: the last beat of a directly preceding burst of the same direction, else the idle level) says so; the change callback reports every chunk with its load time, beat time, pin and state and, once per burst, the return of inverted pins to idle at the end of the last beat; and a restored object continues identically.',
     ['inputs', 'histories', 'crash_points'], 'every data content, burst length, spacing, direction order, chunk width, idle level and threshold',
     'The upstream tests feed fixed bursts of equal length; state that is sized or saved by an earlier burst of a different length or direction, and ties, are not reached.',
     [U + 'dbi.h', U + 'dbialgos.h', U + 'dbihelpers.h', U + 'dbitypes.h'], [('inversion rule', U + 'dbialgos.h'), ('previous beat and callbacks', U + 'dbi.h')], [('last burst per direction', 'end, inversions and last beat', U + 'dbi.h')], ['updateDBI, dispatchResetCallback, getInversionState*, getLastBurstEnd'])
prop('M01', 'Memory specification: derived parameters follow from the raw specification', 'For every raw memory specification, the constructed specification of each standard carries the raw architecture, timing and supply parameters unchanged and derives the others by the standard\'s formulas: burst duration = burst length / data rate (per WCK ratio), read and write precharge offsets, refresh times of the selected refresh mode, banks per group, LPDDR5 bank architecture with its 16-bank fallback, default data rates, beta currents and bank-wise factors when the optional fields are absent, at least one device, and the banks LPDDR4 keeps refreshed in each partial-array self-refresh mode.',
     ['inputs', 'configurations'], 'every value of every timing, current, size and count; presence of every optional field, refresh and PASR mode, organisation, burst length and data rate',
     'The upstream tests parse one specification per standard; a parameter taken from the neighbouring field, a lost default or a formula with the wrong term changes nothing where the sample has equal or zero values.',
     [SRC + 'memspec/MemSpec%s.cpp' % l.upper() for l in stds], [('parameter derivation', SRC + 'memspec/MemSpecLPDDR4.cpp'), ('bank architecture', SRC + 'memspec/MemSpecLPDDR5.cpp')], [], ['MemSpec*::from_memspec and the public members of MemSpec*'])
prop('D01', 'DRAM object: core and interface together, energies, queries, extensions', 'For every command history with DBI and metadata settings, intermediate queries and checkpoints, a DRAM object reports exactly the statistics its core and its interface accumulate for the commands given to each (doCommand drives both); queries change nothing; getStats is the statistics at the last command; energies at a time are the energies of the statistics at that time and the total is core plus interface; extensions report and apply what they were set to; and a checkpoint with extensions restores into a new object that continues like the original.',
     ['histories', 'inputs', 'crash_points'], 'every timing, data content, row, column and query time; every position of the checkpoint and of settings; both data bus modes; every standard',
     'The upstream tests drive one fixed trace at a time and rarely query in between or combine settings with checkpoints.',
     [SRC + 'dram/dram_base.h', U + 'extensions.cpp', U + 'extension_manager.h'] + [ST + '%s/%s.cpp' % (l, l.upper()) for l in stds], [('composition', SRC + 'dram/dram_base.h'), ('extensions', U + 'extensions.cpp')], [('core, interface, extension state', 'driven by the same commands', SRC + 'dram/dram_base.h')], ['doCommand, getStats, getWindowStats, calcCoreEnergy, calcInterfaceEnergy, getTotalEnergy, serialize, deserialize'])
prop('D02', 'Copies and moved DRAM objects are independent and complete', 'For every state of a DRAM object, a copy or moved-to object reports the same statistics as the original and continues exactly as the original would; whatever happens to one object afterwards (commands, DBI and metadata settings through the extensions, destruction) does not change the other.',
     ['histories', 'inputs'], 'every history before and after the copy, data content and query time; either object destroyed or kept; every standard',
     'The upstream tests copy no used object; a callback bound to the source object shows only when DBI or metadata is used after the copy.',
     [ST + '%s/%s.cpp' % (l, l.upper()) for l in stds] + [ST + '%s/%sInterface.cpp' % (l, l.upper()) for l in stds], [('copy and move constructors', ST + 'ddr4/DDR4.cpp'), ('DBI callback', ST + 'ddr4/DDR4Interface.cpp')], [('callbacks and extensions', 'refer to the object that owns them', U + 'extensions.h')], ['copy and move constructors'])
