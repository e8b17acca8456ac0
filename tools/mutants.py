"""Systematic small changes of the library (one syntax node each): which survive the existing tests, and which of those no check reports.

    python3 tools/mutants.py [file.py …]      (a measurement for DESIGN.md; no registered check uses it)

Works in a scratch copy of the repository, which is removed at the end.
"""
import ast
import concurrent.futures
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
CHECKS = {'words.py': 'C01 C10 C09 C22 C12 C15 C11 C04 C02', 'templates.py': 'C08 C01 C11 C22 C12 C02', 'transformators.py': 'C01 C10',
          'dictionary.py': 'C04 C05 C01 C02', 'lexicon.py': 'C06 C07 C15', 'constructors.py': 'C03 C01', 'logic.py': 'C09 C14 C01 C12 C11',
          'data.py': 'C10 C01 C08 C09', 'restrictions.py': 'C09 C01 C14', 'utils.py': 'C10 C02', 'exceptions.py': 'C01 C06 C05 C08',
          'relations.py': 'C01 C12 C11 C09 C14 C22',
          'migrations': 'C13'}


class Mutator(ast.NodeTransformer):
    """changes the n-th mutation point"""

    def __init__(self, n):
        self.n, self.count, self.what = n, 0, None

    def visit_FunctionDef(self, node):
        # not covered by any property (DESIGN.md, section 4)
        return node if node.name in ('create_test_word', '__str__', '__unicode__', 'pretty_format_current_keys_cache') else self.generic_visit(node)

    def visit_Assign(self, node):
        return node if getattr(node.targets[0], 'id', '') == '__slots__' else self.generic_visit(node)

    def point(self, node, make, what):
        self.count += 1
        if self.count - 1 == self.n:
            self.what = '%s line %s: %s' % (what, getattr(node, 'lineno', '?'), ast.unparse(node)[:90])
            return make()
        return None

    def generic_visit(self, node):
        super().generic_visit(node)
        alternatives = list(self.alternatives(node))
        for make, what in alternatives:
            got = self.point(node, make, what)
            if got is not None:
                return ast.copy_location(got, node)
        return node

    def alternatives(self, node):
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            swaps = {ast.Lt: [ast.LtE, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.LtE: [ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                     ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
            for op in swaps.get(type(node.ops[0]), []):
                yield (lambda op=op: ast.Compare(left=node.left, ops=[op()], comparators=node.comparators)), 'compare -> ' + op.__name__
        elif isinstance(node, ast.BoolOp):
            yield (lambda: ast.BoolOp(op=ast.Or() if isinstance(node.op, ast.And) else ast.And(), values=node.values)), 'and/or'
            for i in range(len(node.values)):
                rest = node.values[:i] + node.values[i + 1:]
                yield (lambda rest=rest: ast.BoolOp(op=node.op, values=rest) if len(rest) > 1 else rest[0]), 'operand %d dropped' % i
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield (lambda: node.operand), 'not dropped'
        elif isinstance(node, ast.Constant) and type(node.value) is int:
            yield (lambda: ast.Constant(node.value + 1)), 'constant + 1'
            if node.value:
                yield (lambda: ast.Constant(node.value - 1)), 'constant - 1'
        elif isinstance(node, ast.BinOp):
            swaps = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Mod: ast.FloorDiv}
            if type(node.op) in swaps:
                yield (lambda: ast.BinOp(left=node.left, op=swaps[type(node.op)](), right=node.right)), 'arithmetic'
        elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise)):
            if not (isinstance(node, ast.Expr) and isinstance(node.value, (ast.Constant, ast.Yield))):
                yield (lambda: ast.Pass()), 'statement dropped'
        elif isinstance(node, ast.Return) and node.value is not None:
            yield (lambda: ast.Return(value=None)), 'returns None'
        elif isinstance(node, ast.Continue):
            yield (lambda: ast.Break()), 'continue -> break'
            yield (lambda: ast.Pass()), 'continue dropped'
        elif isinstance(node, ast.If):
            yield (lambda: ast.If(test=ast.Constant(True), body=node.body, orelse=node.orelse)), 'if True'
            yield (lambda: ast.If(test=ast.Constant(False), body=node.body, orelse=node.orelse)), 'if False'
        elif isinstance(node, ast.comprehension) and node.ifs:
            yield (lambda: ast.comprehension(target=node.target, iter=node.iter, ifs=[], is_async=0)), 'filter dropped'
        elif isinstance(node, ast.Call):
            for i in range(len(node.args)):
                yield (lambda i=i: ast.Call(func=node.func, args=node.args[:i] + node.args[i + 1:], keywords=node.keywords)), 'argument %d dropped' % i
            if len(node.args) == 1 and not node.keywords and isinstance(node.func, (ast.Name, ast.Attribute)):
                yield (lambda: node.args[0]), 'call dropped'
            if isinstance(node.func, ast.Attribute) and not node.args:
                yield (lambda: node.func.value), 'method dropped'
        elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            yield (lambda: node.value), 'slice dropped'
        elif isinstance(node, ast.Constant) and type(node.value) is str and 0 < len(node.value) < 3:
            yield (lambda: ast.Constant(node.value + node.value)), 'text doubled'
        elif isinstance(node, ast.Attribute) and isinstance(node.value, ast.Attribute) and isinstance(node.value.value, ast.Name) and node.value.value.id == 'r':
            import utg.relations
            relation = getattr(utg.relations, node.value.attr, None)
            names = [record.name for record in getattr(relation, 'records', ())]
            if node.attr in names and len(names) > 1:
                other = names[(names.index(node.attr) + 1) % len(names)]
                yield (lambda: ast.Attribute(value=node.value, attr=other, ctx=node.ctx)), 'other value'
        elif isinstance(node, ast.Attribute) and node.attr.startswith('is_') and node.attr[3:].isupper():
            yield (lambda: ast.UnaryOp(op=ast.Not(), operand=node)), 'negated'
        elif isinstance(node, ast.Tuple) and isinstance(node.ctx, ast.Load) and len(node.elts) > 2:
            yield (lambda: ast.Tuple(elts=node.elts[1:] + node.elts[:1], ctx=node.ctx)), 'tuple rotated'


def mutants(path):
    source = open(path).read()
    tree = ast.parse(source)
    n = 0
    while True:
        m = Mutator(n)
        new = m.visit(copy.deepcopy(tree))
        if m.what is None:
            return
        yield m.what, ast.unparse(ast.fix_missing_locations(new))
        n += 1


def fresh(repo, where):
    shutil.copytree(repo, where, ignore=shutil.ignore_patterns('.git', '__pycache__'))


def tests_pass(args):
    base, k, rel, text = args
    tree = os.path.join(base, 't%d' % k)
    try:
        fresh('/repo', tree)
        open(os.path.join(tree, rel), 'w').write(text)
        try:
            return subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'utg/tests'], cwd=tree, timeout=60, capture_output=True,
                                  env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1')).returncode == 0
        except subprocess.TimeoutExpired:
            return False
    finally:
        shutil.rmtree(tree, ignore_errors=True)


def main():
    sys.path.insert(0, '/repo')
    chosen = sys.argv[1:]
    sample = int(os.environ.get('SAMPLE', '100000'))
    base = tempfile.mkdtemp(prefix='mutants-')
    try:
        jobs = []
        for rel in chosen:
            found = list(mutants(os.path.join('/repo', rel)))
            if len(found) > sample:
                found = random.Random(1).sample(found, sample)
            jobs += [(rel, what, text) for what, text in found]
        print('%d mutants' % len(jobs), flush=True)
        with concurrent.futures.ThreadPoolExecutor(8) as pool:
            passed = list(pool.map(tests_pass, [(base, k, rel, text) for k, (rel, what, text) in enumerate(jobs)]))
        survivors = [j for j, ok in zip(jobs, passed) if ok]
        print('%d survive the tests' % len(survivors), flush=True)
        for rel, what, text in survivors if os.environ.get('LIST') else ():
            print(rel, what)
        missed = 0
        for rel, what, text in survivors if not os.environ.get('LIST') else ():
            tree = os.path.join(base, 'c')
            fresh('/repo', tree)
            open(os.path.join(tree, rel), 'w').write(text)
            name = os.path.basename(rel)
            checks = CHECKS['migrations' if 'migrations' in rel else name].split()
            caught = None
            for runs in (os.environ.get('RUNS', '400'),):
                for c in checks:
                    p = subprocess.run(['python3', os.path.join(HERE, 'check.py'), '--property', c, '--tier', 'quick', '--no-evidence', '--runs', runs],
                                       env=dict(os.environ, UTG_REPO=tree), capture_output=True, text=True)
                    if p.returncode:
                        caught = '%s rc=%d' % (c, p.returncode)
                        break
                if caught:
                    break
            missed += not caught
            print('%-8s %s %s' % (caught or 'MISSED', rel, what.replace('\n', ' ')), flush=True)
            shutil.rmtree(tree, ignore_errors=True)
        print('%d mutants, %d survive the tests, %d of those are reported by no check' % (len(jobs), len(survivors), missed))
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    main()
