// The TypeScript compiler's JavaScript for a program, executed next to the minifier's.
import { ts, program } from './tsc.mjs';
import { execOne } from './exec.mjs';
const DTS = "declare module 'm' { const d: number; export default d; export const x: any; export const y: any; export function f(a: any): any; export interface TX {} }\n";
const LIB2 = `interface Array<T> { length: number; } interface Boolean {} interface Number {} interface String { readonly length: number; } interface Function {} interface CallableFunction extends Function {} interface NewableFunction extends Function {}
interface IArguments {} interface Object {} interface RegExp {} declare function $(...a: any[]): any; declare const Math: any; declare const Object: any;\n`;
export async function tserase(req) {
  const mod = req.mode === 'module';
  const p = program({ '/a.ts': req.src + (mod ? '\nexport {};' : ''), '/m.d.ts': DTS }, { target: ts.ScriptTarget.ESNext, module: ts.ModuleKind.ESNext, moduleDetection: mod ? ts.ModuleDetectionKind.Force : ts.ModuleDetectionKind.Legacy, useDefineForClassFields: req.define, preserveConstEnums: req.preserveConst, alwaysStrict: false, strict: true }, LIB2);
  const sf = p.getSourceFile('/a.ts');
  const syn = p.getSyntacticDiagnostics(sf);
  if (syn.length) return { error: ts.flattenDiagnosticMessageText(syn[0].messageText, '\n') };
  let js = '';
  p.emit(sf, (f, t) => { if (f.endsWith('.js')) js = t; });
  if (req.semantic) return { sem: p.getSemanticDiagnostics(sf).map(d => ts.flattenDiagnosticMessageText(d.messageText, '\n')), js };
  const results = [await execOne({ src: js, mode: req.mode })];
  results.push(typeof req.out === 'string' ? await execOne({ src: req.out, mode: req.mode }) : { log: [], end: '' });
  // an import whose names are all unused is kept for its side effects on purpose
  for (const r of results) r.log = r.log.filter(l => l !== 'import m');
  return { results, js };
}
