import { treeOpts, listContracts, nodeContracts } from './lib-tree.mjs';
export default { property: 'C05', units: [{ solve: { order: ['cvc5', 'z3', 'z3nombqi', 'cvc5'], t1: 4, t2: 8, t3: 20 }, opts: treeOpts, contracts: { ...listContracts, ...nodeContracts } }] };
