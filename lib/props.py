"""What each check runs. cats: categories of the tester; kani: harness filters; verus: clause groups."""
KANI_TRUST = ['Kani/CBMC itself and its model of the standard integer operations',
              'termination of the primitives is not part of the Kani obligations (they are loop-free)']
VT = 'Verus contracts on every function of the call path, mechanically extracted from /repo on every run'
VN = 'All inputs, all hash distributions, all depths; sizes below usize::MAX / 4; termination not proved.'
PROPS = {
    'C15': dict(level='proof', kani=['vp_harness::w', 'vp_harness::masks'], words=['words'], trusted=KANI_TRUST, technique='Kani full-domain loop-free contract harnesses on the real trait implementations',
                note='Complete over all operands of each word type (bit-precise); rank and count by their defining recursion.'),
    'C16': dict(level='proof', kani=['vp_harness::hasher_'], words=['hashers'], trusted=KANI_TRUST + [
        'the key type\'s Hash implementation is represented by one that writes a chosen 64-bit value; the hasher by one that returns it'],
        technique='Kani full-domain contract harness on the real HasherBv implementations',
        note='Complete over all 64-bit hasher outputs for each of the four hash words; one representative key and hasher type.'),
    'C01': dict(level='proof', verus=True, cats='insert:view,remove:view', technique=VT, note=VN),
    'C02': dict(level='proof', verus=True, cats='insert:ret', technique=VT, note=VN),
    'C03': dict(level='proof', verus=True, cats='remove:ret,remove:view', technique=VT, note=VN),
    'C05': dict(level='proof', verus=True, cats='*:persist', technique=VT, note=VN),
    'C06': dict(level='proof', verus=True, cats='*:visit', technique=VT, note=VN + ' The visitor is modelled by what it appends to a log, of events of any kind; its outcome is a function of its arguments.'),
    'C07': dict(level='proof', verus=True, cats='transform:view', technique=VT, note=VN),
    'C08': dict(level='proof', verus=True, cats='transmute:view', technique=VT, note=VN),
    'C04': dict(level='proof', verus=True, cats='*:size', technique=VT, note=VN),
    'C09': dict(level='proof', verus=True, cats='ff:view', technique=VT, note=VN),
    'C10': dict(level='proof', verus=True, cats='fm:view,mf:view,fu:view', technique=VT, note=VN),
    'C11': dict(level='proof', verus=True, cats='mm:view', technique=VT, note=VN),
    'C12': dict(level='proof', verus=True, cats='*:red', technique=VT, note=VN + ' Stated pointwise: the weight of every key class in the reduction, for every additive weight (DESIGN section 3).',
                trusted=['two reductions in which every (key class, secondary result) has the same weight are equal when the reduction is an associative, commutative operation with neutral default, and generic code cannot tell that reduction from the free one (parametricity)']),
    'C13': dict(level='proof', verus=True, cats='*:par', technique=VT, note=VN),
    'C14': dict(level='proof', verus=True, kani=['vp_harness::f_'], cats='*:panic', trusted=KANI_TRUST, technique=VT + '; Kani contract harnesses on the flag arithmetic', note=VN),
    'C18': dict(level='proof', verus=True, cats='set:*', technique=VT, note=VN),
    'C17': dict(level='proof', verus=True, cats='*:same', technique=VT, note=VN),
}

TODO = 'Not claimed yet: its contracts are under construction.'
NOT_APPLICABLE = {('C%02d' % i): TODO for i in range(1, 19)}
NOT_APPLICABLE.update({
    'C19': 'Freedom from data races under all interleavings rests on unsafe impl Send/Sync over Arc and trait objects; Kani has no threads and the Verus extraction has no permission types for them, so no contract within reach expresses it.',
    'C20': 'Drop counts across panics in user callbacks need a semantics of unwinding over mem::uninitialized and ptr::write; neither Kani (panic = abort) nor Verus (no unwinding, no drop obligations) models it.',
})
