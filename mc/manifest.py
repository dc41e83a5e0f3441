"""Writes MANIFEST.json from the check modules. Run: python3 -m mc.manifest"""
import ast
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
NOTES = json.loads((ROOT / 'mc' / 'level_notes.json').read_text())
NOT_APPLICABLE = NOTES.pop('not_applicable', {})


def main():
  checks, na = [], []
  for line in (ROOT / 'properties.jsonl').read_text().splitlines():
    p = json.loads(line)
    pid = p['id']
    mod = ROOT / 'mc' / 'checks' / f'{pid.lower()}.py'
    if not mod.exists():
      na.append({'property': pid, 'reason': NOT_APPLICABLE.get(
          pid, 'check under construction')})
      continue
    level = None
    for node in ast.parse(mod.read_text()).body:
      if isinstance(node, ast.Assign) and getattr(
          node.targets[0], 'id', None) == 'LEVEL':
        level = ast.literal_eval(node.value)
    checks.append({
        'property': pid,
        'quick_cmd': f'./check {pid} --tier quick',
        'thorough_cmd': f'./check {pid} --tier thorough',
        'evidence_file': f'evidence/{pid}.json',
        'technique': NOTES[pid]['technique'],
        'level': level,
        'level_note': NOTES[pid]['note'],
    })
  man = {'version': 1,
         'setup_cmd': './setup.sh',
         'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: the checks use its public interface.'}
  (ROOT / 'MANIFEST.json').write_text(json.dumps(man, indent=1) + '\n')


if __name__ == '__main__':
  main()
