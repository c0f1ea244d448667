// Bounded stand-in for C21.
export default async function (h) {
  const words = ['0', '-0', '00', '1', '-1', '+1', '01', '1.0', '1.5', '1e3', '1e21', '1e+21', '', ' 1', '1 ', '١', '0x10', 'NaN', 'Infinity', '-Infinity', '9007199254740991', '9007199254740993', '9007199254740992', '-9007199254740991', '100000000000000000000', '1000000000000000000000', '12a', 'a12', '--1', '-', '-01', '1_000', 'null', 'undefined', 'constructor', '%41', 'a%20b', 'é', '%E3%81%82', 'about', 'About', '~'];
  // "the canonical decimal form of the integer n": an optional minus, no leading
  // zeros, not -0; n is the number it denotes, which must be exact.
  const canonical = (s) => {
    if (!/^(0|-?[1-9][0-9]*)$/.test(s)) return undefined;
    const n = Number(s);
    // a number from 1e21 on is printed in exponential form
    return Math.abs(n) < 1e21 && BigInt(n).toString() === s ? n : undefined;
  };
  await h.cases('integer', words.length + 1000, (c, i) => {
    const { integer } = c.B.router;
    let s;
    if (i < words.length) s = words[i];
    else if (c.bool()) s = String((c.bool() ? -1 : 1) * c.pick([c.int(10), c.int(1000), c.int(1e9), c.int(1e9) * 1e6 + c.int(1e6)]));
    else s = Array.from({ length: 1 + c.int(6) }, () => c.pick([...'0123456789-+.e a'])).join('');
    c.log(s);
    const want = canonical(s);
    c.eq(integer(s, '/x/' + s), want, `integer(${h.show(s)})`);
  });
  await h.cases('strings', 600, (c) => {
    const R = c.B.router;
    const s = c.pick(words), k = c.bool(3) ? s : c.pick(words);
    c.log(s, k);
    c.eq(R.keyword(k)(s, '/'), s === k ? k : undefined, `keyword(${h.show(k)})(${h.show(s)})`);
    c.eq(R.encoded(s, '/'), s, 'encoded');
    const raw = c.pick(['a b', 'é', 'あ/い', '%', 'a%20b', '', '?#', 'x']);
    c.eq(R.decoded(encodeURIComponent(raw), '/'), raw, 'decoded');
    const re = c.pick([/^\d+$/, /b/, /(a)(\d)?/, /^$/, /x/i, /(?<n>1)/, /[0-9]+/g]);
    const want = s.match(re);
    re.lastIndex = 0;
    const got = R.regexp(re)(s, '/');
    if (want === null) c.ok(got === undefined, `regexp ${re} on ${h.show(s)} gave ${h.show(got)}`);
    else c.eq([...(got ?? [])], [...want], `regexp ${re} on ${h.show(s)}`);
    if (want !== null) c.eq([got.index, got.input], [want.index, want.input], 'match position');
  });
  await h.cases('combinators', 800, (c) => {
    const R = c.B.router;
    const FALSY = [0, '', false, null, NaN, -0, undefined, 'v', 1];
    const n = c.int(5);
    const results = Array.from({ length: n }, () => c.pick(FALSY));
    const calls = [];
    const comp = c.pick(words), url = '/u/' + comp;
    const m = R.choice(...results.map((r, i) => (x, u) => { calls.push([i, x, u]); return r; }));
    c.log(results);
    const first = results.findIndex((r) => r !== undefined);
    c.eq(m(comp, url), first < 0 ? undefined : results[first], `choice of ${h.show(results)}`);
    c.eq(calls, Array.from({ length: first < 0 ? n : first + 1 }, (_, i) => [i, comp, url]), 'matchers consulted');
    const r = c.pick(FALSY), out = c.pick(FALSY);
    const seen = [], inner = [];
    const s = R.select((x, u) => { inner.push([x, u]); return r; }, (v) => { seen.push(v); return out; });
    const got = s(comp, url);
    c.eq(got, r === undefined ? undefined : out, `select from ${h.show(r)}`);
    c.eq(seen, r === undefined ? [] : [r], 'selector calls');
    c.eq(inner, [[comp, url]], 'matcher calls');
  });
}
