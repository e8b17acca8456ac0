from bugs1 import PRE, T, W, D, L, C, G, X, U
BUGS = []
def bug(id, property, edits, demo, needs, what):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=PRE + demo, needs=needs, what=what))

bug('C08-double-comma', 'C08', [
 (T, "            if not slug:\n                continue\n", "            if not slug:\n                break\n"),
], '''
a = template('[x|мн,,рд]', ['x']); b = template('[x|мн,рд]', ['x'])
if a.serialize() != b.serialize(): fail(a.serialize())
''', 'a list of properties with one comma too many in the middle', 'the properties after it are dropped')

bug('C22-other-names', 'C22', [
 (T, "        return (self.id == other.id and\n                self.dependencies == other.dependencies)\n", "        return self.dependencies == other.dependencies\n"),
], '''
if template('[x|рд]', ['x', 'y']) == template('[y|рд]', ['x', 'y']): fail('equal')
''', 'two templates which differ only in the name of a variable', 'they are reported equal')
