// C04: the order of batches, and of updates within a batch. The functions and
// their invariants are those of C03; the obligations about order are added.
import { shared, scheduleContract, flushSpecOrdered } from './C03.mjs';
import { flushDecls } from './lib-runtime.mjs';
const consts = ['a', 'b', 'c'].map((x) => `(declare-const l${x} (_ BitVec 32))(declare-const d${x} Int)(declare-const i${x} Int)`).join('');
const pr = (x, y) => `(or (bvslt (hp l${x}) (hp l${y})) (and (= (hp l${x}) (hp l${y})) (or (< d${x} d${y}) (and (= d${x} d${y}) (< i${x} i${y})))))`;
export default {
  property: 'C04',
  units: [{
    opts: shared.opts,
    closed: ['Runtime._pendingLanes', '_stagedLanes', '_updateBatch', '_flushLanes'],
    contracts: { ...shared.contracts, ...scheduleContract, 'Runtime._flush': flushSpecOrdered },
  }, {
    opts: { decls: flushDecls + consts },
    contracts: {},
    lemmas: [
      { name: 'the order of updates is irreflexive and transitive', goal: `(and (not ${pr('a', 'a')}) (=> (and ${pr('a', 'b')} ${pr('b', 'c')}) ${pr('a', 'c')}))` },
      { name: 'the order of updates with different ids is total', goal: `(=> (not (= ia ib)) (or ${pr('a', 'b')} ${pr('b', 'a')}))` },
      { name: 'the highest priority lane is the lowest bit', goal: '(=> (not (= la #x00000000)) (and (not (= (hp la) #x00000000)) (= (bvand (hp la) la) (hp la)) (= (bvand la (bvsub (hp la) #x00000001)) #x00000000)))' },
    ],
  }],
};
