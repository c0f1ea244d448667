// SMT terms: strings plus helper constructors, sorts and the common prelude.
export const and = (...xs) => {
  xs = xs.flat().filter((x) => x !== 'true');
  if (xs.includes('false')) return 'false';
  return xs.length === 0 ? 'true' : xs.length === 1 ? xs[0] : `(and ${xs.join(' ')})`;
};
export const or = (...xs) => {
  xs = xs.flat().filter((x) => x !== 'false');
  if (xs.includes('true')) return 'true';
  return xs.length === 0 ? 'false' : xs.length === 1 ? xs[0] : `(or ${xs.join(' ')})`;
};
export const not = (x) =>
  x === 'true' ? 'false' : x === 'false' ? 'true' : x.startsWith('(not ') && balanced(x) ? x.slice(5, -1) : `(not ${x})`;
const balanced = (x) => {
  // is x exactly "(not E)" with a single E
  let d = 0;
  for (let i = 0; i < x.length; i++) {
    if (x[i] === '(') d++;
    else if (x[i] === ')') {
      d--;
      if (d === 0 && i < x.length - 1) return false;
    }
  }
  return true;
};
export const implies = (a, b) => (a === 'true' ? b : a === 'false' || b === 'true' ? 'true' : b === 'false' ? not(a) : `(=> ${a} ${b})`);
export const ite = (c, a, b) => (c === 'true' ? a : c === 'false' ? b : a === b ? a : a === 'true' && b === 'false' ? c : b === 'false' ? and(c, a) : a === 'true' ? or(c, b) : a === 'false' && b === 'true' ? not(c) : `(ite ${c} ${a} ${b})`);
export const eq = (a, b) => (a === b ? 'true' : `(= ${a} ${b})`);
export const int = (n) => (n < 0 ? `(- ${-n})` : String(n));
export const bv = (n) => `#x${(n >>> 0).toString(16).padStart(8, '0')}`;
export const SORTS = {
  Int: 'Int', Bool: 'Bool', BV: '(_ BitVec 32)', Str: 'Str', Ref: 'Int', Val: 'Val',
};
export const smtSort = (s) => SORTS[s] ?? s;

export function prelude({ strings = false } = {}) {
  return `
${strings ? '(define-sort Str () String)' : '(declare-sort Str 0)'}
(declare-datatypes ((Val 0)) (((VUndef) (VNull) (VBool (vbool Bool)) (VInt (vint Int)) (VBv (vbv (_ BitVec 32))) (VStr (vstr Str)) (VRef (vref Int)) (VNaN) (VNegZero) (VSym (vsym Int)))))
(declare-fun ofRef (Int) Val)
(assert (forall ((r Int)) (! (= (ofRef r) (ite (= r (- 1)) VUndef (ite (= r 0) VNull (VRef r)))) :pattern ((ofRef r)))))
(declare-fun toRef (Val) Int)
(assert (forall ((v Val)) (! (= (toRef v) (ite ((_ is VRef) v) (vref v) (ite ((_ is VNull) v) 0 (- 1)))) :pattern ((toRef v)))))
(declare-fun isFn (Int) Bool)
(declare-fun isArr (Int) Bool)
(declare-fun cls (Int) Int)
(declare-fun truthyStr (Str) Bool)
(define-fun truthy ((v Val)) Bool (or (and ((_ is VBool) v) (vbool v)) (and ((_ is VInt) v) (not (= (vint v) 0))) (and ((_ is VBv) v) (not (= (vbv v) #x00000000))) (and ((_ is VStr) v) (truthyStr (vstr v))) ((_ is VRef) v) ((_ is VSym) v)))
(define-fun wfVal ((v Val)) Bool (and (=> ((_ is VRef) v) (> (vref v) 0))))
(define-fun strictEq ((a Val) (b Val)) Bool (or (and (= a b) (not (= a VNaN))) (and (= a VNegZero) (= b (VInt 0))) (and (= b VNegZero) (= a (VInt 0)))))
(define-fun isNullish ((v Val)) Bool (or (= v VUndef) (= v VNull)))
(declare-fun s2i ((_ BitVec 32)) Int)
`;
}
export const S2I_AXIOM = `(assert (forall ((a (_ BitVec 32)) (b (_ BitVec 32))) (! (= (bvslt a b) (< (s2i a) (s2i b))) :pattern ((s2i a) (s2i b)))))
(assert (= (s2i #x00000000) 0))`;
