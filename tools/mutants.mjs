// Mutation survey (development aid, no check reads it): mutates original source lines one at a time in scratch copies of the
// repository, runs the checks of that package and reports the mutants no check notices. usage: mutants.mjs OUT.jsonl [pkg|file ...]
// env: SLOTS (6), MAX (mutants per file, 60), VERIF (a copy of /verif to run the checks from), SEED
import fs from 'node:fs';
import path from 'node:path';
import { createRequire } from 'node:module';
import { spawn, execFileSync } from 'node:child_process';
const ts = createRequire(import.meta.url)('/opt/veriftools/node/node_modules/typescript');
const V = process.env.VERIF || '/verif', SLOTS = Number(process.env.SLOTS || 6), MAX = Number(process.env.MAX || 60), SEED = process.env.SEED || '1';
const [out, ...want] = process.argv.slice(2);
const { props } = await import(V + '/src/props.mjs');
const R = '/repo';
function walk(d) { return fs.readdirSync(d, { withFileTypes: true }).flatMap(e => e.isDirectory() ? (e.name === '__tests__' || e.name === 'types' && !/packages\/types/.test(d) ? [] : walk(path.join(d, e.name))) : /\.ts$/.test(e.name) && !/\.d\.ts$/.test(e.name) ? [path.join(d, e.name)] : []); }
const files = fs.readdirSync(R + '/packages').flatMap(p => fs.existsSync(`${R}/packages/${p}/src`) ? walk(`${R}/packages/${p}/src`) : []).map(f => path.relative(R, f)).filter(f => !want.length || want.some(w => f.startsWith(w.includes('/') ? w : `packages/${w}/`)));
const pkgOf = f => f.split('/')[1];
const checksFor = f => {
  const a = props.filter(p => p.anchors.files.includes(f)).map(p => p.id), b = props.filter(p => !a.includes(p.id) && p.anchors.files.some(g => path.dirname(g) === path.dirname(f))).map(p => p.id),
    c = props.filter(p => !a.includes(p.id) && !b.includes(p.id) && p.anchors.files.some(g => pkgOf(g) === pkgOf(f))).map(p => p.id);
  return [...a, ...b, ...c];
};
const SWAP = { '<': ['<='], '<=': ['<'], '>': ['>='], '>=': ['>'], '===': ['!=='], '!==': ['==='], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&'], '??': ['||'], '+': ['-'], '-': ['+'], '*': ['+'], '/': ['*'], '%': ['*'], '+=': ['-='], '-=': ['+='], '<<': ['>>'], '>>': ['<<'], '&': ['|'], '|': ['&'] };
function mutate(text, name) {
  const sf = ts.createSourceFile(name, text, ts.ScriptTarget.Latest, true); const ms = [];
  const add = (n, rep, kind, s = n.getStart(sf), e = n.end) => ms.push({ s, e, rep, kind, line: sf.getLineAndCharacterOfPosition(s).line + 1, old: text.slice(s, e) });
  const visit = (n, inThrow) => {
    const k = n.kind;
    if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n) || ts.isExportDeclaration(n)) return;
    if (ts.isFunctionDeclaration(n) && !n.body) return;
    if (ts.isThrowStatement(n)) { if (!ts.isSourceFile(n.parent)) add(n, ';', 'drop-throw'); return; }
    if (ts.isBinaryExpression(n)) { const o = n.operatorToken.getText(sf); for (const r of SWAP[o] || []) add(n.operatorToken, r, 'op'); if (o === '&&' || o === '||' || o === '??') { add(n, n.left.getText(sf), 'left-only'); add(n, n.right.getText(sf), 'right-only'); } }
    if (ts.isPrefixUnaryExpression(n)) { if (n.operator === ts.SyntaxKind.ExclamationToken) add(n, n.operand.getText(sf), 'un-not'); if (n.operator === ts.SyntaxKind.MinusToken) add(n, n.operand.getText(sf), 'un-minus'); }
    if (ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) { if (n.operator === ts.SyntaxKind.PlusPlusToken || n.operator === ts.SyntaxKind.MinusMinusToken) add(n, n.operand.getText(sf), 'no-inc'); }
    if (ts.isNumericLiteral(n) && !ts.isPropertyAssignment(n.parent)) { const v = Number(n.text); add(n, String(v + 1), 'num+1'); if (v > 0) add(n, `${v - 1}`, 'num-1'); }
    if (k === ts.SyntaxKind.TrueKeyword) add(n, 'false', 'bool'); if (k === ts.SyntaxKind.FalseKeyword) add(n, 'true', 'bool');
    if (ts.isIfStatement(n)) { add(n.expression, 'false as boolean', 'if-false'); add(n.expression, 'true as boolean', 'if-true'); if (n.elseStatement) add(n.elseStatement, '{}', 'no-else'); }
    if (ts.isConditionalExpression(n)) { add(n, `(${n.whenTrue.getText(sf)})`, 'cond-true'); add(n, `(${n.whenFalse.getText(sf)})`, 'cond-false'); }
    if (ts.isExpressionStatement(n)) add(n, ';', 'drop-stmt');
    if (k === ts.SyntaxKind.BreakStatement || k === ts.SyntaxKind.ContinueStatement) add(n, ';', 'drop-jump');
    if (ts.isReturnStatement(n) && n.expression && ts.isBlock(n.parent) && ts.isIfStatement(n.parent.parent)) add(n, ';', 'drop-return');
    if (ts.isAwaitExpression(n)) add(n, n.expression.getText(sf), 'no-await');
    if (ts.isSpreadElement(n) || ts.isSpreadAssignment(n)) ts.isSpreadAssignment(n) && add(n, '', 'no-spread');
    if (ts.isParameter(n) && n.initializer || ts.isBindingElement(n) && n.initializer) add(n, text.slice(n.getStart(sf), n.initializer.getFullStart()).replace(/=\s*$/, ''), 'no-default');
    if (ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression)) {
      const nm = n.expression.name.text, recv = n.expression.expression.getText(sf);
      if (['slice', 'trim', 'filter', 'reverse', 'sort', 'toLowerCase', 'toUpperCase', 'concat', 'replace', 'replaceAll', 'normalize', 'trimEnd', 'trimStart', 'flat', 'catch', 'finally', 'bind'].includes(nm)) add(n, recv, 'no-' + nm);
      const SW = { startsWith: 'endsWith', endsWith: 'startsWith', push: 'unshift', unshift: 'push', shift: 'pop', pop: 'shift', indexOf: 'lastIndexOf', lastIndexOf: 'indexOf', some: 'every', every: 'some', min: 'max', max: 'min', floor: 'ceil', ceil: 'floor', round: 'floor', trimEnd: 'trim', trimStart: 'trim', padStart: 'padEnd', once: 'on', find: 'findLast', trunc: 'round' };
      if (SW[nm]) add(n.expression.name, SW[nm], 'method');
    }
    if (ts.isPropertyAccessExpression(n) && n.questionDotToken || ts.isCallExpression(n) && n.questionDotToken) { const q = n.questionDotToken; add(n, ts.isCallExpression(n) ? '' : '.', 'no-?.', q.getStart(sf), q.end); }
    if ((ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) && n.text && !ts.isPropertyAssignment(n.parent) && !(ts.isNewExpression(n.parent))) add(n, "'\\u0001x'", 'string');
    if (n.kind === ts.SyntaxKind.RegularExpressionLiteral) {
      const m = /^\/([\s\S]*)\/(\w*)$/.exec(n.text); if (m) {
        for (const f of m[2]) add(n, `/${m[1]}/${m[2].replace(f, '')}`, 're-flag-' + f);
        if (m[1].startsWith('^')) add(n, `/${m[1].slice(1)}/${m[2]}`, 're-^'); if (m[1].endsWith('$')) add(n, `/${m[1].slice(0, -1)}/${m[2]}`, 're-$');
        let c = 0; for (let i = 0; i < m[1].length && c < 24; i++) { const ch = m[1][i]; if (ch === '\\') { const q = m[1].slice(i, i + 2); i++; if (/\\[bBdDsSwW]/.test(q)) { c++; add(n, `/${m[1].slice(0, i - 1)}${q[0] + (q[1] === q[1].toUpperCase() ? q[1].toLowerCase() : q[1].toUpperCase())}${m[1].slice(i + 1)}/${m[2]}`, 're-class'); } continue; } const r = { '*': ['+'], '+': ['*', ''], '?': [''], '.': [] }[ch]; for (const x of r || []) { if (ch === '?' && m[1][i - 1] === '(') continue; c++; add(n, `/${m[1].slice(0, i)}${x}${m[1].slice(i + 1)}/${m[2]}`, 're-q'); } }
      }
    }
    ts.forEachChild(n, visit);
  };
  ts.forEachChild(sf, visit); return ms;
}
const seedRnd = (() => { let s = 7; return () => (s = (s * 1103515245 + 12345) & 0x7fffffff) / 0x7fffffff; })();
let jobs = [];
for (const f of files) {
  const text = fs.readFileSync(path.join(R, f), 'utf8'); let ms = mutate(text, f); const seen = new Set();
  ms = ms.filter(m => { const t = text.slice(0, m.s) + m.rep + text.slice(m.e); if (t === text || seen.has(t)) return false; seen.add(t); return true; });
  while (ms.length > MAX) ms.splice(Math.floor(seedRnd() * ms.length), 1);
  for (const m of ms) jobs.push({ f, ...m });
}
console.log(files.length, 'files', jobs.length, 'mutants');
if (process.env.DRY) process.exit();
const done = new Set(fs.existsSync(out) ? fs.readFileSync(out, 'utf8').split('\n').filter(Boolean).map(l => { const r = JSON.parse(l); return r.f + r.s + r.rep; }) : []);
jobs = jobs.filter(j => !done.has(j.f + j.s + j.rep));
const run = (id, repo) => new Promise(res => { const ch = spawn('timeout', ['240', process.execPath, V + '/run.mjs', id, '--seed', SEED], { env: { ...process.env, VERIF_REPO: repo }, stdio: ['ignore', 'pipe', 'ignore'] }); let o = ''; ch.stdout.on('data', d => o += d); ch.on('close', code => res({ code, o })); });
let n = 0, surv = 0, inc = 0;
async function slot(i) {
  const repo = `/tmp/mut/r${i}`; fs.mkdirSync('/tmp/mut', { recursive: true }); if (!fs.existsSync(repo)) execFileSync('cp', ['-a', R, repo]);
  execFileSync('git', ['-C', repo, 'checkout', '-q', '--', '.']); execFileSync('git', ['-C', repo, 'pull', '-q', '--ff-only', R, 'HEAD']);
  for (let j; j = jobs.shift();) {
    const file = path.join(repo, j.f), text = fs.readFileSync(file, 'utf8'); let by = null, last = '';
    fs.writeFileSync(file, text.slice(0, j.s) + j.rep + text.slice(j.e));
    try { for (const id of checksFor(j.f)) { const r = await run(id, repo); if (r.code === 1) { by = id; break; } if (r.code !== 0) { by = id + ':' + r.code; last = r.o.slice(0, 200); if (/cannot build/.test(r.o)) break; by = null; inc++; j.inc = (j.inc || '') + id + ' '; } } } finally { fs.writeFileSync(file, text); }
    n++; if (!by) surv++;
    fs.appendFileSync(out, JSON.stringify({ ...j, by, last }) + '\n');
    if (n % 100 === 0) console.log(n, 'run', surv, 'survive', inc, 'inconclusive', jobs.length, 'left');
  }
}
await Promise.all(Array.from({ length: SLOTS }, (_, i) => slot(i)));
console.log('done', n, 'run', surv, 'survive');
