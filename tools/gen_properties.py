#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that the prose stays readable)."""
import json, os

def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files,
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech],
                             observe_at=list(observe), hook_needed=None))

SEQ = 'The existing tests call the library from one thread, once, with no interruption: '

PROPS = [
P('C01', 'Concurrent rendering always yields exactly the prescribed text',
  'Any number of threads may render templates at once, sharing the same templates, dictionary, words and numbers. '
  'Every rendering returns exactly the text that the word forms, the agreement rules and the dictionary prescribe for that request alone, whatever the other threads do and whatever was rendered before. '
  'A request whose dictionary word or referenced variable is missing fails with the documented library error, under the same conditions.',
  ['schedules', 'histories', 'inputs'],
  'For every template, dictionary, set of external values and every interleaving of concurrent renderings (switching between any two steps of the library), including the very first use of lazily computed data.',
  SEQ + 'they check a few dozen fixed phrases, each in a fresh object, so no schedule and no shared first-use state is exercised.',
  ['utg/templates.py', 'utg/words.py', 'utg/transformators.py', 'utg/dictionary.py', 'utg/utils.py', 'utg/constructors.py', 'utg/data.py'],
  [('rendering keeps all intermediate state local', 'utg/templates.py:Template.substitute, Substitution.get_text'),
   ('lazily computed facts are idempotent', 'utg/utils.py:lazy_property'),
   ('agreement rules return new property sets', 'utg/transformators.py')],
  [('lazy slots', 'form text, syllables, fluent vowel, cluster start', 'utg/words.py'),
   ('form tables', 'property combination to form index', 'utg/data.py')],
  ['the string returned by rendering', 'the exception raised by rendering']),

P('C02', 'An interrupted call leaves no trace and can simply be retried',
  'If rendering, parsing, word construction, number construction, lookup or form selection is cut short at any point by an asynchronous exception (keyboard interrupt, timeout, memory exhaustion), the objects passed in and all shared state stay usable. '
  'Retrying the call, or making any other call, gives exactly the result it would have given had the interruption never happened. '
  'Rendering and lookups never modify the templates, words, property sets, external values or dictionaries they are given.',
  ['fault_sequences', 'crash_points', 'histories'],
  'For every call sequence and every placement of one or several interruptions at any step inside the library.',
  SEQ + 'no test ever raises in the middle of a library call, so no half-finished state is ever looked at.',
  ['utg/templates.py', 'utg/words.py', 'utg/dictionary.py', 'utg/constructors.py', 'utg/utils.py'],
  [('values are published by one assignment after being computed', 'utg/utils.py:lazy_property, utg/constructors.py:construct_integer'),
   ('external values are cloned before they are changed', 'utg/words.py:Properties.clone, utg/templates.py:Substitution.get_text')],
  [], ['results of the retried call', 'serialised form of every input object before and after']),

P('C03', 'Numbers are right from their very first concurrent use',
  'The word form built for an integer carries that integer\'s decimal text and its grammatical class (one; two to four; eleven-to-nineteen endings; compound one; compound two to four; million or billion; other) for every integer of any sign and any size that Python itself can print. '
  'This holds for the first request of a process as for any later one, for requests racing with it in other threads, and after a first request that was interrupted. '
  'One number\'s form never depends on which other numbers were requested before.',
  ['schedules', 'fault_sequences', 'inputs', 'histories'],
  'For every set of integers, every order and interleaving of first uses, and every interruption point while shared number data is being prepared.',
  SEQ + 'a handful of numbers are asked for after the shared data was already built by an earlier test.',
  ['utg/constructors.py', 'utg/words.py'],
  [('shared table is built completely, then published by a single assignment', 'utg/constructors.py:construct_integer'),
   ('classification by absolute value', 'utg/constructors.py:_construct_integer')],
  [('shared table of small numbers', 'prepared on first use, knob: upper bound', 'utg/constructors.py:_INTEGER_CACHE')],
  ['text and properties of the returned form', 'phrases rendered with the number']),

P('C04', 'Dictionaries with the same words converge to the same answers',
  'Two dictionaries that were given the same words answer every lookup with equal word forms (same word, same properties), in whatever order the words arrived, however often a word was delivered, whether given up front or one by one, and across restarts that rebuild the dictionary. '
  'When several words share a spelling, the winner is chosen by part of speech, then by the words\' forms, then by closeness to the default form. '
  'An addition that was interrupted and then repeated counts as one addition.',
  ['histories', 'fault_sequences', 'crash_points'],
  'For every multiset of words (homonyms, identical forms, duplicate deliveries), every permutation of additions on each replica, and every interruption or restart in between.',
  SEQ + 'the tests add two or three words in one fixed order and never compare two dictionaries fed differently.',
  ['utg/dictionary.py', 'utg/words.py'],
  [('priority among words with a common spelling', 'utg/dictionary.py:Dictionary.add_word'),
   ('distance from default properties', 'utg/words.py:Properties.manhattan_distance')],
  [('spelling index', 'text to preferred word form', 'utg/dictionary.py:Dictionary._data')],
  ['lookup results of every spelling on every replica', 'the set of words reported']),

P('C05', 'Dictionary reads stay sound while words are being added',
  'While one or several threads add words to a dictionary, any number of other threads may look words up, test for presence, list the words, or check templates for missing words, and none of these calls ever fails for a reason other than the word being absent. '
  'A word whose addition has returned is always found; an answer is always the preferred one among the words whose addition has begun, and never falls back to a less preferred answer later. '
  'Words whose addition has not begun are never reported. When all additions have returned, the answers are those of a dictionary to which the words were added one after another.',
  ['schedules', 'histories'],
  'For every sequence of additions by one or several loaders and every interleaving of loaders and readers, at every step.',
  SEQ + 'no test reads a dictionary while it is being filled.',
  ['utg/dictionary.py', 'utg/templates.py'],
  [('each spelling is published by one assignment, additions take turns', 'utg/dictionary.py:Dictionary.add_word'),
   ('listing works over a stable view', 'utg/dictionary.py:Dictionary.get_words'),
   ('missing-word report', 'utg/templates.py:Template.get_undictionaried_words')],
  [('spelling index', 'text to preferred word form', 'utg/dictionary.py:Dictionary._data')],
  ['results and exceptions of reader calls, ordered against the additions']),

P('C06', 'Random template choice is always eligible, nearest and able to reach all',
  'A random choice under a key returns only a template registered under that key whose restrictions are all among the requested ones; the nearest choice returns only one that shares the largest number of restrictions with the request among those eligible. '
  'Every template that qualifies is returned for some outcome of the random source, and the same random state with the same registrations gives the same pick. '
  'An unknown key and a key with nothing eligible are reported by their own documented errors.',
  ['histories', 'schedules', 'inputs'],
  'For every history of registrations, every requested restriction set, every random state, and every interleaving of choices with registrations in other threads.',
  'The tests draw a hundred times from two or three fixed templates; they cannot cover registration histories, concurrent registration or all random states.',
  ['utg/lexicon.py'],
  [('eligibility filter', 'utg/lexicon.py:Lexicon.get_templates'),
   ('nearest filter', 'utg/lexicon.py:Lexicon._get_nearest_templates'),
   ('choice', 'utg/lexicon.py:Lexicon.get_random_template, get_random_nearest_template')],
  [('registrations', 'key to ordered (template, restrictions)', 'utg/lexicon.py:Lexicon._data')],
  ['templates returned by choices', 'exceptions raised by choices']),

P('C07', 'A registered template is never lost, duplicated or moved',
  'Once registering a template has returned, that template is available under exactly the key and restrictions it was registered with, exactly as many times as it was registered, no matter how many threads register concurrently under the same or different keys, new or existing. '
  'Listing returns the eligible templates of one key in the order in which non-overlapping registrations were made, and never fails because of registrations going on elsewhere. '
  'A registration that was interrupted has either happened once or not at all, and disturbs no other.',
  ['schedules', 'fault_sequences', 'histories'],
  'For every set of concurrent registrations and listings, every interleaving, and every interruption point.',
  SEQ + 'templates are registered one after another and read afterwards.',
  ['utg/lexicon.py'],
  [('registration of key and template', 'utg/lexicon.py:Lexicon.add_template'),
   ('listing into an immutable tuple', 'utg/lexicon.py:Lexicon.get_templates')],
  [('registrations', 'key to ordered (template, restrictions)', 'utg/lexicon.py:Lexicon._data')],
  ['listings per key and restriction set during and after the run']),

P('C08', 'Parsing a template is all-or-nothing and repeatable',
  'Parsing a text into a template object gives the same template as parsing that text into a brand-new object, whatever was parsed, rejected or interrupted in that object before. '
  'A text that is rejected, with an error of the library, leaves the object, and any rendering of it, exactly as it was; so a parse that is cut short has either happened or not, and a rendering '
  'in another thread meanwhile uses either the template before or the one after. '
  'Parsing one template never affects another, nor the set of variable names passed in.',
  ['histories', 'fault_sequences', 'schedules', 'inputs'],
  'For every sequence of accepted, rejected and interrupted parses of one object, and every interleaving of parses and renderings of other objects.',
  SEQ + 'every test parses one valid text into one new object.',
  ['utg/templates.py'],
  [('parse result is built aside and assigned at the end', 'utg/templates.py:Template.parse'),
   ('substitution parsing', 'utg/templates.py:Substitution.parse')],
  [('substitution list and text', 'what rendering uses', 'utg/templates.py:Template')],
  ['rendered text, serialised template and equality after each parse']),

P('C09', 'Filling in missing word forms is atomic, faithful and repeatable',
  'Filling in the missing forms of a word gives every missing form the text of the nearest given form (agreeing in the most, and most important, properties) and never changes a form that was given. '
  'If the filling is interrupted, repeated, or run by several threads at once, the final forms are the same as after one undisturbed filling, and an observer sees the forms either all as they were or all as they will be. '
  'A word with nothing given stays empty, and a complete word stays as it is.',
  ['fault_sequences', 'schedules', 'inputs'],
  'For every part of speech, every subset of given forms, every interruption point (followed by a repeat) and every interleaving of fillings and readers.',
  'One test fills one noun, undisturbed; partially filled states after an interruption, and repeats from them, are never looked at.',
  ['utg/words.py', 'utg/logic.py'],
  [('nearest key', 'utg/logic.py:get_nearest_key'), ('filling', 'utg/words.py:Word.autofill_missed_forms')],
  [('forms', 'list of texts, empty text = missing', 'utg/words.py:Word.forms')],
  ['the word\'s forms before, during and after']),

P('C10', 'Derived facts about a word always match its forms',
  'Syllable count, fluent-vowel flag, form text and initial-consonant-cluster flag reported for a word or word form always equal what its current forms determine: on first and later queries, for queries racing in several threads, after interrupted queries, and after the missing forms were filled in (a query made during the filling may still see the forms before it). '
  'Words and word forms built separately never share these facts. '
  'Phrases that depend on them (choice of preposition variant) follow accordingly.',
  ['schedules', 'fault_sequences', 'histories'],
  'For every word, every interleaving and interruption of first queries, and every order of querying, filling in forms and querying again.',
  'The tests query each fact once on a fresh word in one thread.',
  ['utg/words.py', 'utg/utils.py', 'utg/transformators.py'],
  [('computed on demand and kept', 'utg/utils.py:lazy_property'),
   ('facts', 'utg/words.py:Word.number_of_syllables, has_fluent_vowel, WordForm.form, starts_with_consonant_cluster'),
   ('invalidated by filling in', 'utg/words.py:Word.autofill_missed_forms')],
  [('lazy slots', 'remembered facts', 'utg/words.py')],
  ['the facts', 'rendered preposition phrases']),

P('C11', 'Saved words and templates survive restarts, detached from live objects',
  'A word, property set or template that is saved and later restored in another process equals the original and renders the same text. '
  'A saved record is a snapshot: nothing done later to the live object changes the record, nothing done to a record changes the live object, and two objects restored from one record are independent. '
  'This holds for crashes between any two steps of saving, storing and restoring: the store then holds the old or the new record, each complete.',
  ['crash_points', 'histories', 'inputs'],
  'For every object, every sequence of changes, saves, crashes and restores.',
  'The tests restore each saved object immediately and compare once; nothing is changed in between and no process ever ends.',
  ['utg/words.py', 'utg/templates.py'],
  [('word records', 'utg/words.py:Word.serialize, Word.deserialize'),
   ('property records', 'utg/words.py:Properties.serialize, Properties.deserialize'),
   ('template records', 'utg/templates.py:Template.serialize, Template.deserialize')],
  [], ['restored objects', 'records as JSON text at save time and later']),

P('C12', 'Damaged or foreign stored records are rejected or safely reduced',
  'Restoring a record with property kinds or values this version does not know ignores exactly those and keeps all others. '
  'Restoring a word record whose part of speech is unknown or whose number of forms does not fit its part of speech fails with an error; it never yields a word. '
  'A word or template record that lacks one of its parts (for a template: of one of its variables) fails with an error as well. '
  'Whatever bytes of a stored record were damaged, restoring either fails or yields an object that answers every form request from its own stored forms, and the failure disturbs nothing else.',
  ['fault_sequences', 'inputs'],
  'For every saved word and template and every torn, truncated, flipped, stale or foreign-version record made from it.',
  'One test each covers a single unknown property and a single wrong number of forms.',
  ['utg/words.py', 'utg/templates.py', 'utg/exceptions.py'],
  [('unknown properties are skipped', 'utg/words.py:Properties.deserialize'),
   ('number of forms is checked', 'utg/words.py:Word.__init__'),
   ('part of speech code is looked up', 'utg/words.py:Word.deserialize')],
  [], ['restored object or exception', 'other objects before and after']),

P('C13', 'Migrating stored words gives one result, wherever it was interrupted',
  'Migrating a stored word record through the form-layout steps in order gives every form of the new layout the text its nearest old form had, drops nothing else, and the end result fits the current layout and can be restored. '
  'The outcome for each record depends on that record only: a batch that crashes at any point and is resumed from the stored records, or is run by several workers at once, or in any record order, ends with the same records. '
  'Migrating one record never changes another one, nor records already migrated.',
  ['crash_points', 'schedules', 'histories', 'inputs'],
  'For every set of records of every part of speech in the older layouts, and every crash, resume, worker interleaving and order of a migration batch.',
  'There is no test of the migrations at all.',
  ['utg/migrations/m_0002_countable_noun_form.py', 'utg/migrations/m_0004_new_preposition_form.py', 'utg/migrations/m_0005_remove_time_participle_property.py',
   'utg/migrations/m_0007_reduce_words_forms.py', 'utg/migrations/m_0008_lower_animiality_nearest_priority.py', 'utg/migrations/m_0009_pronoun_modernization.py', 'utg/logic.py'],
  [('frozen old and new layouts', 'utg/migrations/m_0007..m_0009: OLD_CACHES, NEW_CACHES'),
   ('nearest old form', 'utg/logic.py:get_nearest_key'),
   ('new list assigned once', 'utg/migrations/*: migrate_forms')],
  [], ['the migrated record', 'all other records']),

P('C14', 'Results are identical in every process',
  'Form layouts, the form chosen for every combination of properties, identifiers, saved records, lookups, filled-in forms, migrations and rendered texts are the same in every process, whatever the hash seed, object addresses, order of imports or what was used first. '
  'The layout of stored forms is the one shipped, so a record written by one process is read identically by any other. '
  'With the same random state, registrations and request, every process picks the same template.',
  ['configurations', 'schedules', 'histories'],
  'For every hash seed, address layout and import order of a new process, and every workload.',
  'The tests run in one process with a fixed hash seed (0) and compare structures built in that same process.',
  ['utg/logic.py', 'utg/data.py', 'utg/restrictions.py', 'utg/relations.py', 'utg/dictionary.py', 'utg/lexicon.py'],
  [('layouts are generated in schema order', 'utg/logic.py:_keys_generator, _get_cache'),
   ('table completion scans in insertion order', 'utg/logic.py:_get_raw_cache, get_nearest_key')],
  [('layouts and full tables', 'key to index', 'utg/data.py')],
  ['digest of all tables and of a workload, per process']),

P('C15', 'Objects made separately never influence each other',
  'Changing, filling, querying or extending one word, property set, dictionary, lexicon or template, or combining property sets into a new one, never changes the observable behaviour of any other object that was not passed to that operation (a word takes over the list of forms it is made with); nor does it change property sets, word lists, name sets or external values that were only read from. '
  'Objects created with default arguments are as independent as any others. '
  'This holds when the objects are used by different threads at the same time and when operations are interrupted.',
  ['histories', 'schedules', 'fault_sequences'],
  'For every population of objects, every history of operations on them by several threads, and every interruption.',
  'The tests use fresh objects in each test and look only at the object they operate on.',
  ['utg/words.py', 'utg/dictionary.py', 'utg/lexicon.py', 'utg/templates.py', 'utg/constructors.py'],
  [('property sets are copied when combined', 'utg/words.py:Properties.__init__, clone'),
   ('containers are created per object', 'utg/dictionary.py, utg/lexicon.py, utg/templates.py: __init__'),
   ('shared defaults are never changed', 'utg/words.py:Word.__init__ default properties, utg/dictionary.py default word list, utg/lexicon.py default restrictions')],
  [], ['full observable state of every object after every operation']),

P('C16', 'A text service built on the library converges and serves right texts',
  'In a service whose nodes keep a dictionary and a lexicon replicated as saved records over an unreliable network and restart from their own storage, every text a node serves is the one prescribed by the words and templates that node has accepted, and a node never serves a text from a record it rejected. '
  'After faults stop and every record has reached every node, all nodes give identical answers to identical requests, equal to those of a single node that was never disturbed. '
  'Every request finishes within a bounded number of steps.',
  ['schedules', 'fault_sequences', 'crash_points', 'histories'],
  'For every workload of publications and requests, and every pattern of message loss, duplication, reordering, delay, partition, node crash at any step inside the library, restart and damaged record.',
  'No test combines saving, restoring, dictionary, lexicon and rendering, and none has more than one participant.',
  ['utg/words.py', 'utg/templates.py', 'utg/dictionary.py', 'utg/lexicon.py', 'utg/constructors.py'],
  [('order-independent dictionary', 'utg/dictionary.py:Dictionary.add_word'),
   ('records', 'utg/words.py, utg/templates.py: serialize, deserialize'),
   ('choice and rendering', 'utg/lexicon.py, utg/templates.py')],
  [], ['texts served by every node', 'state of all nodes after the faults stop']),

# --- not applicable to this family: pure functions of their input -------------------------------
P('C17', 'Numeral agreement follows the Russian grammar rules',
  'Nouns, pronouns, adjectives, verbs and participles that depend on a number take the number and case that Russian grammar prescribes for that number\'s class, for every case, gender and animacy, in full and in semantic dependency mode.',
  ['inputs'], 'For every combination of class, case, gender, animacy and dependency mode.',
  'The tests list a subset of the combinations.',
  ['utg/transformators.py'], [('agreement rules', 'utg/transformators.py:_noun_integer, _adjective_integer')]),
P('C18', 'Preposition variants follow the phonetic rules',
  'The variant of a preposition is the one its following word calls for: the lengthened one before a one-syllable word with an initial cluster and a fluent vowel or after the same consonant, the vowel one before a non-iotated vowel, the special one before the listed pronouns.',
  ['inputs'], 'For every preposition and following form.', 'The tests list examples.',
  ['utg/transformators.py'], [('preposition rules', 'utg/transformators.py:_preposition_any')]),
P('C19', 'Every combination of properties selects exactly one existing form',
  'For every part of speech, every combination of the properties in its schema selects a form that exists, and every form of the layout is selected by its own combination.',
  ['inputs'], 'For every part of speech and property combination (finite).', 'The tests check sizes and samples.',
  ['utg/logic.py', 'utg/data.py'], [('full tables', 'utg/logic.py:_get_raw_cache')]),
P('C20', 'Literal text around substitutions is preserved verbatim',
  'Everything in a template outside square brackets, percent signs and braces included, appears unchanged in the rendered text, in order, and a capitalised variable name yields a capitalised first letter and changes nothing else.',
  ['inputs'], 'For every template text.', 'The tests use a handful of texts.',
  ['utg/templates.py'], [('escaping and marking', 'utg/templates.py:Template.parse')]),
P('C21', 'Short property names are unique across all properties',
  'No two property values share a short name, so a short name in a template identifies exactly one value.',
  ['inputs'], 'For every pair of property values (finite).', 'One fixed table; checked at most by example.',
  ['utg/relations.py', 'utg/logic.py'], [('name table', 'utg/logic.py:get_verbose_to_relations')]),
P('C22', 'Equality and hashes agree and stay what they were',
  'Two words are equal exactly when their part of speech, properties and forms are; word forms when their words and form properties are; property sets and templates when their contents are, however '
  'they were made (constructed, combined, copied, restored from a record, parsed again). Equal words, word forms and property sets have equal hashes. Both answers are the same in every thread and after '
  'every history: an object kept in a set or mapping stays findable there, and the set keeps as many elements, whatever is later queried, looked up, compared, rendered or filled in, interrupted or not.',
  ['histories', 'schedules', 'fault_sequences', 'inputs'],
  'For every population of equal, alike and different objects, every history of operations on them, every interleaving, and interruption at any step.',
  SEQ + 'the tests compare a few fresh objects, and take few hashes.',
  ['utg/words.py', 'utg/templates.py'],
  [('equality and hash of property sets, words and forms', 'utg/words.py:__eq__, __hash__'), ('equality of templates', 'utg/templates.py:Template.__eq__')],
  [('hash and equality', 'what sets and mappings of the user, and word forms inside the library, depend on', 'utg/words.py')],
  ['results of ==, !=, hash(), `in` and len() of sets and mappings']),

P('C23', 'Malformed templates and words are rejected with a library error',
  'Every malformed template text or word definition is rejected with an error of the library\'s own error family rather than an unrelated one.',
  ['inputs'], 'For every malformed input.', 'The tests cover few malformed inputs.',
  ['utg/templates.py', 'utg/words.py', 'utg/exceptions.py'], [('error classes', 'utg/exceptions.py')]),
]

if __name__ == '__main__':
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
