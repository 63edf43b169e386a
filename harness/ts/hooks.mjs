// Loads the client's TypeScript as it stands, with the libraries beside this file.
import { stripTypeScriptTypes } from 'node:module';
import { existsSync, readFileSync, statSync } from 'node:fs';
import { dirname, resolve as join } from 'node:path';
import { fileURLToPath, pathToFileURL } from 'node:url';

const here = dirname(fileURLToPath(import.meta.url));
const LIBS = [
  [/^@solana\/web3\.js$/, 'web3.mjs'],
  [/^@solana\/spl-token$/, 'spl.mjs'],
  [/^@coral-xyz\/anchor(\/.*)?$/, 'anchor.mjs'],
  [/^bn\.js$/, 'bn.mjs'],
  [/^big\.js$/, 'big.mjs'],
];

const locate = (spec, from) => {
  for (const [re, file] of LIBS) if (re.test(spec)) return join(here, file);
  if (!spec.startsWith('.')) return null;
  const p = join(dirname(from), spec);
  for (const c of [p, p + '.ts', p + '.mjs', p + '.js', join(p, 'index.ts'), p.replace(/\.js$/, '.ts')])
    if (existsSync(c) && statSync(c).isFile()) return c;
  return null;
};

// the interface as published, in place of the client's copy of it
const published = (file) =>
  process.env.PUBLISHED && file.endsWith('/client/src/openbook_v2.ts')
    ? 'export const IDL = ' + readFileSync(join(dirname(file), '../../../idl/openbook_v2.json'), 'utf8') + ';\n'
    : null;

const code = new Map();
const source = (file) => {
  if (!code.has(file)) {
    const s = published(file) ?? readFileSync(file, 'utf8');
    code.set(file, file.endsWith('.ts') ? stripTypeScriptTypes(s, { mode: 'transform' }) : s);
  }
  return code.get(file);
};

// names a module gives values to
const exported = (file, seen = new Set()) => {
  const out = new Set();
  if (seen.has(file)) return out;
  seen.add(file);
  const s = source(file);
  for (const m of s.matchAll(/^\s*export\s+(?:default\s+)?(?:async\s+)?(?:class|function\*?|const|let|var)\s+(\w+)/gm)) out.add(m[1]);
  for (const m of s.matchAll(/^\s*export\s*\{([^}]*)\}(\s*from\s*['"][^'"]+['"])?/gm))
    for (const n of m[1].split(',')) {
      const x = n.trim().split(/\s+as\s+/).pop().trim();
      if (x && !/^type\s/.test(n.trim())) out.add(x);
    }
  for (const m of s.matchAll(/^\s*export\s*\*\s*from\s*['"]([^'"]+)['"]/gm)) {
    const f = locate(m[1], file);
    if (f) for (const x of exported(f, seen)) out.add(x);
  }
  return out;
};

// imports of types only are dropped
const trimmed = (file) =>
  source(file).replace(/^(\s*(?:import|export)\s+)((?:\w+\s*,\s*)?)\{([^}]*)\}(\s*from\s*['"])([^'"]+)(['"];?)/gm, (all, head, dflt, names, mid, spec, tail) => {
    const f = locate(spec, file);
    if (!f) return all;
    const have = exported(f);
    const keep = names
      .split(',')
      .map((x) => x.trim())
      .filter((x) => x && !/^type\s/.test(x) && have.has(x.split(/\s+as\s+/)[0].trim()));
    return head + dflt + '{ ' + keep.join(', ') + ' }' + mid + spec + tail;
  });

export async function resolve(spec, ctx, next) {
  const from = ctx.parentURL?.startsWith('file:') ? fileURLToPath(ctx.parentURL) : null;
  if (from?.endsWith('.ts')) {
    const f = locate(spec, from);
    if (f) return { url: pathToFileURL(f).href, format: 'module', shortCircuit: true };
  }
  if (spec.endsWith('.ts')) return { url: spec, format: 'module', shortCircuit: true };
  return next(spec, ctx);
}

export async function load(url, ctx, next) {
  if (!url.endsWith('.ts')) return next(url, ctx);
  return { format: 'module', source: trimmed(fileURLToPath(url)), shortCircuit: true };
}
