PBT = 'property-based testing: '
NOTES = 'Run from /verif: ./run <id> [--tier quick|thorough] [--seed N] [--replay FILE]. Pure Python: nothing to build; the checks import /repo/lib.'
NA = []
PROPS = []


def P(id, title, statement, quant, why, files, mech, observe, technique, note, over=('inputs',)):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), quant=quant, why=why,
                      files=['lib/sldr/' + f if '/' not in f else f for f in files], mech=mech, observe=observe,
                      technique=PBT + technique, note=note))


GEN = 'No violation among the generated cases the evidence counts, each decided by an oracle independent of the code; not a proof. '

P('C01', 'Unicode-set lists read back exactly as written',
  'A list of distinct characters and strings written as a Unicode set is read back as exactly that list, with nothing lost, merged or invented, and any standard reader of the notation reads the same set. '
  'This holds for syntax characters, spaces, combining marks, private use, default ignorable and supplementary characters.',
  'every list of distinct non-empty NFC strings of Unicode scalar values',
  'The tests read back a handful of lists; escaping depends on every character class and on what follows a character.',
  ['UnicodeSets.py'], [('list2us, us2list', 'lib/sldr/UnicodeSets.py'), ('escape rules', 'lib/sldr/UnicodeSets.py: escape helpers')],
  ['us2list(list2us(l)), ICU UnicodeSet(list2us(l))'], 'round trip and ICU UnicodeSet as differential oracle',
  GEN + 'Trusts ICU 74 as reader of the notation.')
P('C02', 'Unicode-set patterns mean what the notation says',
  'Every pattern in Unicode-set notation is read as the set it denotes: characters in each escape form, ranges, strings, nested sets, union, intersection, difference and complement. '
  'A sequence of sets expands to every combination of their members and of nothing else, each once.',
  'every pattern of the notation of nested depth, escapes and operators, and sequences of them',
  'Tests hold a few dozen patterns; the notation is recursive with interacting escapes.',
  ['UnicodeSets.py'], [('parse, UnicodeSet operators, flatten, struni', 'lib/sldr/UnicodeSets.py')], ['parse(), flatten(), struni()'],
  'grammar-based generation, reference evaluator and ICU as oracles', GEN + 'Trusts ICU 74 and a reference evaluator over the syntax tree.')
P('C03', 'Language tags survive parsing, formatting and merging',
  'A language tag taken apart and put together is the same tag in canonical case, with every subtag in its place and order. '
  'Leaving out script or region gives exactly the tag without them, and merging one tag into another changes nothing when the two conflict and gives both tags\' parts when they do not.',
  'every well formed language tag (language, extended language, script, region, variants, extensions, private use), in any case and with either separator',
  'No test of the suite looks at language tags at all.',
  ['langtags_full.py'], [('LangTag parsing, str, merge_equivalent', 'lib/sldr/langtags_full.py')], ['LangTag(s), str(), merge'],
  'grammar-based generation and a reference BCP 47 splitter', GEN + 'Trusts a reference reading of RFC 5646 syntax.')
P('C04', 'Every form of a tag finds its one entry in the tag table',
  'In a table of equivalent language tags each form of a line finds the entry of that line, whatever its case, with that line\'s full and minimal forms. '
  'No form is attributed to two lines.',
  'the whole shipped table and every table in its format', 'No existing test reads the tables.',
  ['langtags_full.py'], [('LangTags reading and lookup', 'lib/sldr/langtags_full.py')], ['LangTags(...)[tag]'],
  'exhaustive over the shipped table, generated tables with a reference model', GEN + 'Exhaustive for the shipped table.')
P('C05', 'Subtag registries are read record for record',
  'Every record of a subtag registry is read with all its fields: folded lines, repeated fields and values containing colons come out as written, and nothing is attributed to another record. '
  'Attributes of a language tag table come from the record of that very subtag.',
  'the shipped registry and every registry in record-jar format', 'No existing test reads a registry.',
  ['iana.py', 'langtags_full.py'], [('Iana', 'lib/sldr/iana.py'), ('LangTags over a registry', 'lib/sldr/langtags_full.py')], ['Iana(), LangTags()'],
  'generated registries against a reference reader', GEN + 'Trusts a reference record-jar reader.')
P('C06', 'Saving an LDML document is a fixed point',
  'Loading a saved document and saving it again gives the same bytes, whether it was normalised once or repeatedly, with or without drafts, with namespaces at the top or in place. '
  'So normalising a file that is already normalised never changes it.',
  'every document of the LDML DTD with drafts, alternates, comments, special characters and namespaces, and the documents in the repository',
  'Tests normalise a few small documents once; fixed points need iteration over arbitrary structure.',
  ['ldml.py', 'py3xmlparser.py'], [('Ldml loading, normalise, serialize_xml', 'lib/sldr/ldml.py'), ('TreeBuilder', 'lib/sldr/py3xmlparser.py')], ['bytes of saved files'],
  'generated documents, idempotence of load/normalise/save', GEN + 'Comments after the root element are left out.')
P('C07', 'Nothing is lost in loading and saving an LDML document',
  'What is saved holds exactly the elements, texts, attributes and comments of the document loaded, several addresses of a resource and reorderings of a name included. '
  'The only exceptions are elements marked as inherited, dropped unless asked for, draft attributes equal to the default, and all but the best of leaves repeated under different drafts, which become alternates. How the document is written in XML (encoding, references, sections, instructions, document type) makes no difference.',
  'every document of the LDML DTD, in every way XML has of writing it, and any text, attribute value or comment XML can carry',
  'Tests compare small documents element by element; loss occurs at unusual characters, comments and nesting.',
  ['ldml.py', 'py3xmlparser.py'], [('Ldml loading, serialize_xml', 'lib/sldr/ldml.py')], ['saved file parsed with the standard library'],
  'generated documents, standard-library XML parser and reference reading as oracle', GEN + 'Repeated containers, and equal draft ratings among repeated leaves, are left out.')
P('C08', 'What is written is well formed and says what is in the tree',
  'Whatever text, attribute values, comments and namespaces a tree has, what is written from it is well-formed XML which any XML reader reads as that tree. '
  'Each element and attribute is in the namespace it is in in the tree.',
  'every tree with names in any namespaces and any characters XML can carry', 'Tests write trees of plain letters in the two usual namespaces.',
  ['ldml.py'], [('ETWriter, etwrite', 'lib/sldr/ldml.py')], ['output parsed with the standard library'],
  'generated trees, standard-library XML parser as oracle', GEN + 'Control characters, which XML cannot carry, are left out.')
P('C09', 'Saved LDML is in canonical order',
  'Two documents which differ only in the order of sibling elements and attributes are saved as the same bytes. '
  'Elements and attributes come in the order of the DTD, and elements of which the order matters stay as they were.',
  'every document and every permutation of siblings and attributes', 'Tests have one order per document.',
  ['ldml.py', 'sil.dtd'], [('normalise, attribute sorting', 'lib/sldr/ldml.py')], ['bytes of saved files'],
  'metamorphic (permutation) and DTD order as oracle', GEN + 'Siblings differing only in the case of an attribute, and comments, are left out.')
P('C10', 'The best draft is in front and no alternate is lost',
  'Through any sequence of adding texts under drafts and names, changing drafts, removing, normalising and reloading, the element in front is the one with the best draft and the others remain as alternates with their texts, drafts and names. '
  'Nothing is lost except what is removed or replaced by name, and the elements beside it stay as and where they are.',
  'every history of edits to an element and its alternates', 'Tests do one or two edits; the state accumulates over histories.',
  ['ldml.py'], [('ensure_path, change_draft, remove_path, alternates', 'lib/sldr/ldml.py')], ['what is saved after each step'],
  'stateful model-based testing', GEN + 'Trusts a model of alternates written from the documented behaviour.', over=('histories', 'inputs'))
P('C11', 'Paths address the elements they describe',
  'Finding by a path gives exactly the elements it describes; making sure of a path adds exactly what is missing, once; removing takes away what is described and nothing else. '
  'The path given for an element finds that element alone.',
  'every path over every document, with attribute tests, namespaces and any depth', 'Tests use a few fixed paths.',
  ['ldml.py'], [('find, findall, ensure_path, remove_path, as_xpath', 'lib/sldr/ldml.py')], ['elements found and what is saved'],
  'stateful testing against a reference path evaluator', GEN + 'Attribute values in paths have no ] or double quote.', over=('histories', 'inputs'))
P('C12', 'Three-way merging takes every change and no other',
  'Merging two versions of a document with their common ancestor gives the changes of both, exactly, when they are in different places; merging without changes changes nothing; the order of the two sides does not matter then. '
  'A text changed on both sides is never lost: it is in front, an alternate, or in the note of the clash, and a change wins over a removal unless the removing side is to win. '
  'An attribute changed there and removed here has the change; a list in significant order that one side changed is as that side has it; of several addresses or specials in one place, the changes only one side made are taken. '
  'Alternates are merged as elements are, each by its name, the better draft winning where both changed one; a change of a draft alone is taken too.',
  'every ancestor document and pair of sets of edits to it, with and without drafts', 'The test merges one triple of documents.',
  ['ldml_merge.py'], [('LdmlMerge.merge', 'lib/sldr/ldml_merge.py')], ['the merged document as saved'],
  'algebraic laws of three-way merge over generated edit scripts', GEN + 'Elements of which order is significant are left out.')
P('C13', 'Flattening fills in exactly what a locale lacks',
  'A flattened locale has everything of its own, unchanged, and what it lacks from its ancestors, each thing from the nearest ancestor which has it; nothing else is added. '
  'Ancestors are followed by truncation and by the parents CLDR gives, flattening twice changes nothing, and no source file is touched.',
  'every family of documents over a tree of locales (scripts, regions, variants, listed parents, root), with inheritance marks, collations, fonts and keyboards with any number of addresses',
  'Tests flatten two pairs of documents with one parent each.',
  ['ldml_merge.py', 'ldml.py'], [('flattenlocale', 'lib/sldr/ldml_merge.py'), ('overlay', 'lib/sldr/ldml_merge.py'), ('resolve_aliases, get_parent_locales', 'lib/sldr/ldml.py')], ['flattened files'],
  'generated families of locales, reference inheritance as oracle', GEN + 'Trusts a reference reading of inheritance; overlaying alias elements is left out.')
P('C14', 'Unflattening leaves out all that is inherited and nothing more',
  'Taking out of a locale what its parent has leaves exactly what differs from the parent, with the identity, alternates, fonts and collations of its own; of a list in significant order all is left out or all of it stays. '
  'So flattening what was unflattened gives the flattened locale again, for whole families of locales.',
  'every family of documents over a tree of locales', 'No existing test unflattens a locale and flattens it again.',
  ['ldml_merge.py'], [('difference', 'lib/sldr/ldml_merge.py'), ('flattenlocale', 'lib/sldr/ldml_merge.py')], ['unflattened documents, and those flattened again'],
  'round trip of flatten and unflatten over generated families', GEN + 'Trusts a reference reading of inheritance.')
P('C15', 'Writing a collation tailoring again keeps the order it defines',
  'A sort tailoring in ICU/LDML syntax that is parsed and written again, in the order of its rules or in sort order, wrapped or not, orders every string as the original does. '
  'This holds for every strength, resets before and after, contractions, expansions, comments and characters escaped in any form; minimising keeps the order of the elements tailored, and escaping and unescaping a text gives that text.',
  'every tailoring made of resets to single characters and relations', 'Tests compare the text written for two tailorings; the order itself is never looked at.',
  ['collation.py'], [('Collation.parse, asICU, minimise', 'lib/sldr/collation.py'), ('escape, unescape', 'lib/sldr/collation.py')],
  ['the text asICU() returns, as ICU reads it'], 'generated tailorings, ICU collators of the rules before and after as oracle',
  GEN + 'Trusts ICU 74. Resets to several characters, settings and [import] are left out; recorded limits are in known_findings.txt.')
P('C16', 'Sort keys order strings as the element table and the tailoring say',
  'The sort key of a string is the one the Unicode Collation Algorithm gives it from the shipped element table, with contractions, expansions, ignorable characters and implicit weights; '
  'comparing two keys tells which sorts first and at which level they differ, consistently, whatever way they are compared. Keys of tailored elements stand where the tailoring puts them, in tailorings of thousands of elements too. A table other than the shipped one is read as it stands and used where it is given.',
  'every string over the table, every pair of keys and every tailoring', 'Tests compare three pairs of strings.',
  ['collation.py', 'allkeys.txt'], [('ducetSortKey, readDucet', 'lib/sldr/collation.py'), ('SortKey', 'lib/sldr/collation.py'), ('CollElement.sortkey', 'lib/sldr/collation.py')],
  ['SortKey comparison, Collation.getSortKey and sortKey'], 'reference Unicode Collation Algorithm, algebraic laws and ICU as oracles',
  GEN + 'Trusts ICU 74 for tailored keys. Supplementary characters are a recorded finding.')
P('C17', 'A simple sort list becomes a tailoring in which its items sort as listed',
  'A simple list of letters, one item a line, with case variants and secondary items, is converted to a tailoring under which items sort in the order listed: lines at the first level, items within a line at the second, case variants at the third. '
  'Case variants left out are supplied. Minimising the tailoring drops rules without changing that order.',
  'every list whose first item is a single letter', 'Tests compare the text written for a dozen lists; the order itself is never looked at.',
  ['collation.py'], [('Collation.convertSimple', 'lib/sldr/collation.py'), ('_insertBefore, minimise, asICU', 'lib/sldr/collation.py')],
  ['the text asICU() returns, as ICU reads it'], 'generated sort lists, ICU as oracle',
  GEN + 'Trusts ICU 74. Lists beginning with several letters are a recorded finding.')
P('C18', 'Exemplars found in a text are those it has, classified as documented',
  'Analysing text finds every cluster in it, with its count: no letter, mark, digit or punctuation it has is lost and nothing it lacks is added, whatever was specified as exemplars before. '
  'Marks are kept with their base or separate by the documented rules (never combining, on many bases, on the same bases, stacked); exemplars are main or auxiliary by frequency; the index is the upper case of main; only the main script is given; what occurs in one case only is told.',
  'every text, in any normalization form and any number of pieces, every set of exemplars specified before and every threshold', 'Tests analyse some forty short texts.',
  ['ldml_exemplars.py'], [('Exemplars.process, analyze', 'lib/sldr/ldml_exemplars.py'), ('split_exemplar, find_second_marks, parcel_frequency', 'lib/sldr/ldml_exemplars.py'), ('list2us', 'lib/sldr/UnicodeSets.py')],
  ['main, auxiliary, index, punctuation, digits, script and raw_clusters of Exemplars'], 'generated texts in ten scripts, reference classifier as oracle',
  GEN + 'Characters come from a fixed list whose script is written down in the check. Nuktas and marks that follow something they cannot belong to are left out.')
P('C19', 'A spreadsheet of locale data becomes the LDML it describes, and back',
  'Every value in a spreadsheet (tab separated or OpenDocument) is in the LDML made from it, at the path its row or table gives, and nothing else is. '
  'Filling a spreadsheet from LDML puts each value in its cell and changes no other cell, so that LDML, the shipped template included, survives the way there and back.',
  'every sheet made of rows and of the four kinds of table, in every way cells may be stored', 'No existing test reads a spreadsheet.',
  ['sheet.py', 'data/LDML_entry.ods'], [('Sheet', 'lib/sldr/sheet.py'), ('sheetldml', 'scripts/sheetldml')], ['the LDML file and the spreadsheet written'],
  'round trip of generated spreadsheets, own reader and writer of both formats as oracle',
  GEN + 'Rows without attributes come before those with them, as in the template; cells of several paragraphs and merged cells are left out.')
P('C20', 'Language tags are completed from the tables without contradiction',
  'Analysing a language tag that the tag table does not list keeps all that was given, adds only script and region that an entry of the table gives, those of the listed tag it extends if there is one, and never changes the table. '
  'The short form of what comes out means the same. Every likely subtag read from CLDR is found, by its short and by its full form, as what CLDR says. '
  'A table built from registry, likely subtags and supplemental data gives every entry all its forms and nothing else, and to a language of one territory and one script both.',
  'every tag, the whole shipped table and every table in its format, all shipped likely subtags and every consistent list of them, the shipped sources of the table and every consistent set of them', 'No existing test reads the tables or analyses a tag.',
  ['langtags_full.py', 'langtags.txt', 'likelySubtags.xml'] , [('LangTag.analyse, merge_equivalent, allforms', 'lib/sldr/langtags_full.py'), ('LangTags.readLikelySubtags, readExtras, readSupplementalData, add', 'lib/sldr/langtags_full.py')],
  ['LangTag(...).analyse(table)', 'LangTags(...)[tag]'], 'generated tags against the shipped and generated tables, reference reading of the table as oracle; exhaustive over the shipped likely subtags',
  GEN + 'Private-use languages (x-...) and phonetic variants in Latin script, which hide the script, are decided only in part.')
P('C21', 'Resolving aliases puts in place of each what it points to',
  'Flattening a locale with aliases resolved puts in place of each alias the content it points to in that locale, inherited or its own, through any number of aliases. '
  'No alias is left, nothing is there twice, what the locale has of its own is not overridden, and aliases that lead back to each other do no harm.',
  'every family of documents and every set of aliases at any level', 'No existing test has an alias.',
  ['ldml.py', 'ldml_merge.py'], [('Ldml.resolve_aliases', 'lib/sldr/ldml.py'), ('overlay', 'lib/sldr/ldml_merge.py'), ('the parent step of paths (..)', 'lib/sldr/ldml.py')],
  ['the flattened file'], 'generated families with aliases, reference resolution as oracle',
  GEN + 'Aliases that point to what is only there through an alias above it, and those that lead back, are only required to terminate and leave no alias.')
P('C22', 'The command-line tools do to files what they say, and nothing to others',
  'ldmlnormalize, ldmlflatten, ldmlmerge, icupretty and zonetab write the canonical form, the flattened or unflattened locale, the three-way merge, the same tailoring and the same zones of the files they are given, to the place asked for or to standard output, in one process or several. '
  'They leave other files as they are, carry on after a file that cannot be read, and flattening replaces the imports of a collation by the tailoring of exactly that locale and type.',
  'every directory of documents, family of locales, triple of versions, tailoring and table of zones', 'No existing test runs the scripts.',
  ['scripts/ldmlnormalize', 'scripts/ldmlflatten', 'scripts/ldmlmerge', 'scripts/icupretty', 'scripts/zonetab', 'ldml_merge.py'],
  [('the scripts', 'scripts/ldmlnormalize'), ('flattenlocale, getldml', 'lib/sldr/ldml_merge.py'), ('flatten_collation', 'lib/sldr/ldml.py')], ['the files and the output the scripts write'],
  'generated files given to the scripts, the references of C07, C12, C13 and C15 as oracle',
  GEN + 'Validation, the git modes and the scripts that need the network are left out.')
P('C23', 'The tools that maintain the SLDR change what they are to, and nothing else',
  'cldrimport puts together what the directories of the CLDR say of each locale, without references and with the identity the SLDR needs, and removes only files of locales that are gone. '
  'sldrautonames, sldraddkeymans, sldraddfonts and fixsldr add or move in each file the names, keyboards, fonts and old elements their tables and options call for, and change no other element and no other file; fontmatch gives the first rule that matches, and sldrcoverage the share of what English has that each locale has at each level.',
  'every tree of files, table of tags, list of keyboards, fonts and rules, and definition of levels', 'No existing test runs these scripts.',
  ['scripts/cldrimport', 'scripts/sldrautonames', 'scripts/sldraddkeymans', 'scripts/sldraddfonts', 'scripts/fixsldr', 'scripts/fontmatch', 'scripts/sldrcoverage'],
  [('doit', 'scripts/cldrimport'), ('the loop over files', 'scripts/sldrautonames'), ('the loop over keyboards', 'scripts/sldraddkeymans'), ('write_font_data', 'scripts/sldraddfonts'), ('doit', 'scripts/fixsldr'), ('match1', 'scripts/fontmatch'), ('getxpaths, CoverageLevel', 'scripts/sldrcoverage')],
  ['the files the scripts write'], 'generated files and tables given to the scripts, the documents wanted computed by the check as oracle',
  GEN + 'langtag.lookup() reads a table made for the case, and addresses of fonts are asked of a stand-in for the network. Style sheets and hg are left out.')
