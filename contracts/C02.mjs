// C02: lanes of an update request and the quantities derived from lanes.
const opt = (n) => `options.${n}`;
// The specification, written on bits independently of the code.
const bit = (cond, k) => `(${cond} ? bits(${2 ** k}) : bits(0))`;
const H = 'asInt(options.transition)';
const D = 'asInt(options.delay)';
const expected = [
  bit('truthyFlush(options)', 0),
  bit('options.handler !== undefined', 1),
  bit("asVal(options.priority) === asVal('user-blocking')", 2),
  bit("asVal(options.priority) === asVal('user-visible')", 3),
  bit("asVal(options.priority) === asVal('background')", 4),
  `(options.transition !== undefined ? pow2(5 + ${H} % 24) : bits(0))`,
  bit(`options.delay !== undefined && ${D} <= 100`, 29),
  bit(`options.delay !== undefined && ${D} > 100`, 30),
].join(' | ');
const pow2 = () => {
  let t = '#x00000000';
  for (let i = 0; i < 32; i++) t = `(ite (= k ${i}) #x${(2 ** i).toString(16).padStart(8, '0')} ${t})`;
  return t;
};
const topTransition = () => {
  // number of the highest transition bit (5..28) or -1
  let t = '(- 1)';
  for (let i = 0; i < 24; i++) t = `(ite (= ((_ extract ${i + 5} ${i + 5}) l) #b1) ${i} ${t})`;
  return t;
};
const lowest = () => {
  let t = '#x00000000';
  for (let i = 31; i >= 0; i--) t = `(ite (= ((_ extract ${i} ${i}) l) #b1) #x${(2 ** i).toString(16).padStart(8, '0')} ${t})`;
  return t;
};
export default {
  property: 'C02',
  units: [{
    opts: {
      fieldSorts: { priority: 'Val', transition: 'Val', delay: 'Val', flushSync: 'Val', handler: 'Val' },
      decls: `(define-fun pow2 ((k Int)) (_ BitVec 32) ${pow2()})
(define-fun topTransition ((l (_ BitVec 32))) Int ${topTransition()})
(define-fun lowestBit ((l (_ BitVec 32))) (_ BitVec 32) ${lowest()})`,
      specFns: {
        pow2: { smt: 'pow2', args: ['Int'], ret: 'BV' },
        topTransition: { smt: 'topTransition', args: ['BV'], ret: 'Int' },
        lowestBit: { smt: 'lowestBit', args: ['BV'], ret: 'BV' },
        truthyFlush: { params: ['o'], expr: 'truthy(o.flushSync)' },
        truthy: { smt: 'truthy', args: ['Val'], ret: 'Bool' },
        anyOf: { params: ['l', 'm'], expr: '(bits(l) & bits(m)) !== bits(0)' },
      },
    },
    contracts: {
      getHighestPriorityLane: {
        ensures: { 'the lowest set bit': 'result === lowestBit(lanes)' },
      },
      getLaneFromPriority: {
        paramTypes: { priority: 'Val' },
        returns: 'BV',
        requires: { 'a task priority': "priority === asVal('user-blocking') || priority === asVal('user-visible') || priority === asVal('background')" },
        ensures: {
          'the bit of the priority': "result === (priority === asVal('user-blocking') ? bits(4) : priority === asVal('user-visible') ? bits(8) : bits(16))",
        },
      },
      getPriorityFromLanes: {
        ensures: {
          'user-blocking with a sync, handler or user-blocking bit': "implies(anyOf(lanes, 7), result === 'user-blocking')",
          'user-visible otherwise if present': "implies(!anyOf(lanes, 7) && anyOf(lanes, 8), result === 'user-visible')",
          'background otherwise if a background, transition or delay bit is present': "implies(!anyOf(lanes, 15) && anyOf(lanes, 0x7ffffff0), result === 'background')",
        },
      },
      getRenderLanes: {
        requires: {
          'options of their declared types': "(options.priority === undefined || asVal(options.priority) === asVal('user-blocking') || asVal(options.priority) === asVal('user-visible') || asVal(options.priority) === asVal('background')) && (options.transition === undefined || isType(options.transition, 'number') && isInt(options.transition) && asInt(options.transition) >= 0) && (options.delay === undefined || isInt(options.delay))",
        },
        specFns: { isInt: { smt: '(_ is VInt)', args: ['Val'], ret: 'Bool' } },
        ensures: { 'exactly one bit per given option': `result === (${expected})` },
      },
      getTransitionIndex: {
        ensures: { 'the number of the highest transition bit, or -1': 'result === topTransition(lanes)' },
      },
    },
  }],
};
