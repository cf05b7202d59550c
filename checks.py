"""What each property's check runs: suites of real executions, TLC models, and how hard each tier goes."""

def S(name, n, weight=2_500_000, tn=None, tweight=None, **k):
    return dict(name=name, quick=(n, weight), thorough=(tn or n * 20, tweight or weight * 15), **k)

def M(module, what, emits=(), cfg=None, **k):
    return dict(module=module, cfg=cfg or module, what=what, emits=list(emits), **k)

RULE = ("a case is one complete interaction with the real code (inputs, configuration and everything observed); distinct means a different "
        "patch/input/tag hash, non-trivial means the patch holds at least one operation or the case is one the specification expects to be refused")

def FORMAT(e):
    return M('MCFormat', 'writer, channel and reader: every patch of up to two operations in up to two sections, plain or compressed with algorithm 1, is read as written, ends where it ends and is applied to its denotation', e)
def FORMS(e):
    return M('MCFormat', 'every alternative encoding (size forms, padded addresses and header fields, both layouts) of up to two operations around the size limits decodes to the same operations', e, cfg='MCFormatE')
def MERGE(e):
    return [M('MCMerge', 'every chain of two patches of up to two operations: taking up older patches one at a time keeps the meaning of the chain, leaves no output copies, and is finished exactly when the source does not matter', e),
            M('MCMerge', 'the same for chains of three patches, and that the order of merging does not matter', e, cfg='MCMergeC')]
def ENCODER(e):
    return [M('MCEncoder', 'every edit history of up to two edits over a file of up to three blocks, encoded greedily under every switch: reconstruction, section limits, no source copies when off, literals bounded by what is new and the seams', e),
            M('MCEncoder', 'shorter histories with every choice an encoder could make', e, cfg='MCEncoderA')]
def FAR(e):
    return [M('MCFar', 'every list of up to two operations moved far into a large source and behind a large output (bases up to 2^62 and past 2^32) means what it means nearby (thorough: three operations in two sections)', e)]
def FAULTS(e):
    return M('MCFormat', 'every proper prefix of a patch is refused; with any one byte replaced the reader still reaches a verdict, and what it accepts keeps its own promises', e, cfg='MCFormatF')

CHECKS = {
    'C01': dict(suites=[S('c01', 60_000)], models=ENCODER(['c01'])),
    'C02': dict(suites=[S('c02', 60_000)], models=ENCODER(['c02'])),
    'C03': dict(suites=[S('c03', 300_000)], models=[FORMAT(['c03'])]),
    'C04': dict(suites=[S('c04', 300_000)], models=[FORMAT(['c04']), FORMS(['c04'])]),
    'C05': dict(suites=[S('c05', 400_000)], models=[FORMAT(['c05']), FORMS(['c05'])] + FAR(['c05'])),
    'C06': dict(suites=[S('c06', 100_000)], models=[M('MCSections', 'every list of up to 4 operations around the length limits, every kind of requested size: closing groups yields a partition with true headers', ['c06']),
        M('SmdSectionsZ', 'the scan that divides operations into sections, over unbounded integers (Apalache): an inductive invariant for operation lists of any length, operations of every length, every requested size', apalache=[
            dict(init='Init', inv='IndInv', length=0), dict(init='IndInit', inv='IndInv', length=1), dict(init='Init', inv='NeverCloses', length=3, control=True)])]),
    'C07': dict(suites=[S('c07', 200_000)], models=[FORMAT(['c07'])]),
    'C08': dict(suites=[S('c08', 200_000)], models=MERGE(['c08'])),
    'C09': dict(suites=[S('c09', 200_000)], models=MERGE(['c09'])),
    'C10': dict(suites=[S('c10', 200_000)], models=[M('MCRewrite', 'every list of up to three groups of operations under every two rewriting steps (joining, cutting, runs from literals, copies from runs): meaning and size stay', ['c10'])]),
    'C11': dict(suites=[S('c11', 200_000)], models=[M('MCSlice', 'every contiguous list of up to 3 operations and every range in and around it: the cutting rule yields exactly the atoms of the range', ['c11']),
        M('SmdSliceZ', 'the cutting rule as a scan, over unbounded integers (Apalache): an inductive invariant for contiguous lists of any length that begin anywhere, every range and every position in it', apalache=[
            dict(init='Init', inv='Both', length=0), dict(init='IndInit', inv='Both', length=1), dict(init='Init', inv='StaysBehind', length=2, control=True)])]),
    'C12': dict(suites=[S('c12', 60_000, 2_000_000)], models=[
        M('MCVcdiff', 'every delta of one window and up to two instructions, and of two windows of one instruction, over a two byte source: window contents, addresses and declared sizes', ['c12']),
        M('MCVcdiff', 'the same deltas read in the dialect of RFC 3284: where the two readings agree', cfg='MCVcdiffR'),
        M('MCConvert', 'instructions longer than an operation or ending around the end of a section: pieces, sections and their content', ['c12'], weight=2_000_000),
        M('MCVcdiff', 'two windows with up to one instruction each', ['c12'], cfg='MCVcdiffW', tiers=['thorough'])]),
    'C13': dict(suites=[S('c13', 600_000, hang=20), S('c13v', 400_000, hang=20)], models=[FAULTS(['c13'])]),
    'C14': dict(suites=[S('c14', 100_000)], models=[FAULTS(['c14'])]),
    'C15': dict(suites=[S('c15', 400_000)], models=[M('MCWord', 'every word with boundary limbs: encodings are inverse, shortest, bounded and reject what does not fit; address differences lead back', ['c15']),
        M('SmdWordZ', 'over unbounded integers (Apalache; each machine ends within ten steps, so the check is complete): every 64-bit value, every byte string, every signed word and every pair of addresses', apalache=[
            dict(init='Init', inv='Inv', length=11), dict(init='Init', inv='NineBytes', length=11, control=True)])]),
    'C16': dict(suites=[S('c16', 60_000, 3_000_000)], models=[
        M('MCIo', 'every behaviour of an environment that may transfer all, part or nothing, interrupt or fail, against an operation that completes its transfers: success means everything went through and nothing failed; it returns', ['c16']),
        M('MCIo', 'control: an operation that trusts single calls is caught by the same invariants', cfg='MCIoOnce', control=True)]),
    'C17': dict(suites=[S('c17', 300_000)], models=[FORMAT(['c17'])] + FAR(['c17'])),
    'C18': dict(suites=[S('c18', 300_000), S('c18i', 200_000)], models=[FORMAT(['c18']),
                M('MCIter', 'every stream of up to three sections in one to three patches, every sequence of five calls (owned, borrowed, taking the stream back, reading a section directly): every section once and in order, the end exactly behind a terminal section and from then on', ['c18i'])]),
    'C19': dict(suites=[S('c19', 60_000), S('cfg', 40_000, 400_000)], models=ENCODER(['c19']) + [
        M('MCConfig', 'every constructor followed by every sequence of two setters: the last word on a field counts and nothing else changes it', ['cfg'])]),
    'C20': dict(suites=[S('c20', 40_000)], models=ENCODER(['c20']) + [
        M('MCWindow', 'every history of up to three edits around the places where the indexed part of a large source moves on: what is stored again is bounded by what was removed, and the encoder finds back', ['c20'], weight=4_000_000),
        M('MCWindow', 'control: a window that only moves while there is a match gets stuck', cfg='MCWindowLazy', control=True)]),
    'C21': dict(suites=[S('c21', 20_000)], models=[
        M('MCSession', 'every history of up to three operations (encode, transcode, merge, re-encode) over three versions and no source, encode preferring literals or copies: every patch held turns its first version into its second', ['c21']),
        M('MCSession', 'the same histories with every patch encode could choose', cfg='MCSessionA')]),
    'C22': dict(suites=[S('c22', 30_000)], models=ENCODER(['c22'])),
}
for c in CHECKS.values():
    c.setdefault('rule', RULE)
    c.setdefault('assumptions', ['TLC and the CommunityModules evaluate the specification correctly',
                                 'the recorder in harness/ reports faithfully what the public API returned'])

def LEVEL(pid):
    return 'model_checking'

NOT_APPLICABLE = {}

def NOTE(pid):
    return CHECKS[pid].get('note', 'The specification is explicit and complete for the wire format and its semantics; the code is bound to it by executing the public API on '
        'generated cases and letting TLC accept or reject each recorded behaviour. Bounded: it covers the executions made, not all inputs.')
