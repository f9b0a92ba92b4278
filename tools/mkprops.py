#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept here because JSON lines are hard to edit)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=()):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': [os.path.normpath('pdfmajor/' + f) for f in files],
                          'mechanism': [{'name': n, 'where': os.path.normpath('pdfmajor/' + w)} for n, w in mech],
                          'observe_at': list(observe), 'hook_needed': None}})


p('C01', 'PDF object syntax is read as the standard defines it',
  'Every sequence of valid PDF objects (numbers, booleans, null, names, literal and hexadecimal strings, arrays, '
  'dictionaries, references, keywords) is read as exactly the values ISO 32000 assigns to it, whatever white space or '
  'comments stand between the tokens, and identically in file bodies, object streams and content streams. '
  'Odd-length hexadecimal strings and bare carriage returns inside literal strings are not claimed.',
  ['inputs'], 'all valid byte strings over the lexical alphabets up to the bound, all separators, all small trees',
  'The tests read about 20 fixed token strings; escape, delimiter and nesting combinations are unbounded.',
  ['parser/PSStackParser/PSBaseParser.py', 'parser/PSStackParser/__init__.py', 'parser/PDFParser.py',
   'parser/PDFContentParser.py'],
  [('character-driven tokenizer states', 'parser/PSStackParser/PSBaseParser.py'),
   ('object stack', 'parser/PSStackParser/__init__.py')], ['objects returned by the parsers'])
p('C02', 'Reading does not depend on where buffer boundaries fall',
  'The tokens, their positions, the lines (forwards and backwards), the objects and the stream data read from a file '
  'are the same however the data is divided into reads, including tokens and lines cut at any byte and a last token '
  'or line that ends with the data. Seeking to a token and reading on gives the same tokens as reading through.',
  ['inputs', 'schedules'], 'every division of every short input into reads; every alignment of a file against the buffer',
  'Test files place few tokens across the 4096-byte boundary and never vary the alignment.',
  ['parser/PSStackParser/PSBaseParser.py', 'parser/PDFParser.py', 'parser/PDFContentParser.py'],
  [('resumable token functions, fillbuf', 'parser/PSStackParser/PSBaseParser.py'),
   ('nextline / revreadlines', 'parser/PSStackParser/PSBaseParser.py')], ['tokens', 'lines', 'objects'])
p('C03', 'An object number always resolves to its newest revision',
  'For every history of incremental updates, written as cross-reference tables, cross-reference streams, hybrids and '
  'object streams in any mixture, looking up an object number yields the value of the newest revision that defines it, '
  'and an object that the newest revision frees is absent. The answer does not depend on the order of lookups or on '
  'whether objects are cached.',
  ['histories', 'configurations'], 'all update histories up to the bound over few object numbers and all storage forms',
  'Every test file has one or two revisions in one storage form.',
  ['parser/PDFDocument/__init__.py', 'parser/PDFDocument/PDFXRef.py'],
  [('cross-reference chain', 'parser/PDFDocument/__init__.py'), ('entry decoding', 'parser/PDFDocument/PDFXRef.py'),
   ('object caches', 'parser/PDFDocument/__init__.py')], ['document object lookup'])
p('C04', 'Damaged cross-reference data never changes what is read',
  'When the cross-reference information of a file is damaged or cut off at any byte while the object bodies and a '
  'trailer remain, opening the file still yields the original objects and pages, however the objects are divided into '
  'lines; of an object with bodies in several revisions, the newest. A file cut anywhere is '
  'either read with the objects it still completely contains or rejected with an error of the library, never with an '
  'internal error or wrong content.',
  ['fault_sequences', 'crash_points'], 'every single-byte corruption class and every truncation point of small files',
  'One test file has a damaged cross-reference table; faults have thousands of positions.',
  ['parser/PDFDocument/__init__.py', 'parser/PDFDocument/PDFXRef.py'],
  [('fallback scan', 'parser/PDFDocument/PDFXRef.py'), ('find_xref', 'parser/PDFDocument/__init__.py')],
  ['objects and pages of the opened document'])
p('C05', 'Pages come out in document order with the attributes they inherit',
  'For every page tree the pages are delivered exactly once each, in left-to-right order, with Resources, MediaBox, '
  'CropBox and Rotate taken from the page or else its nearest ancestor. Selecting page numbers delivers exactly those '
  'pages, a limit on the number of pages cuts the document behind that many pages; page box (given by any two opposite corners) and '
  'rotation are applied to every coordinate and to the size of the page. Documents without a usable page tree deliver each of their page objects once.',
  ['inputs', 'configurations'], 'all page trees up to the bound, all placements of inheritable attributes, all selections',
  'Test documents have shallow trees without inheritance overrides and one page selection.',
  ['parser/PDFPage.py', 'interpreter/__init__.py', 'interpreter/PageInterpreter.py'],
  [('tree walk with inherited attributes', 'parser/PDFPage.py'), ('page matrix', 'interpreter/PageInterpreter.py')],
  ['pages, their size, box and contents'])
p('C06', 'Stream filters decode exactly what the standard encoders produce',
  'For every byte string and every valid encoding of it by LZW, ASCII85, ASCIIHex, RunLength and Flate, alone or '
  'chained, under full or abbreviated filter names, with direct or indirect filter entries, decoding returns the '
  'original bytes. Bytes behind an end-of-data marker and white space inside the ASCII encodings have no effect.',
  ['inputs', 'configurations'], 'all short byte strings, all encodings of each, all chains of two filters; code-width crossings',
  'Tests decode a handful of constants and never reach LZW width changes, resets or chains.',
  ['utils/lzw.py', 'utils/ascii85.py', 'parser/PDFStream/__init__.py', 'parser/PDFStream/util.py'],
  [('LZW decoder', 'utils/lzw.py'), ('ASCII filters', 'utils/ascii85.py'), ('rldecode', 'parser/PDFStream/util.py'),
   ('filter chain', 'parser/PDFStream/__init__.py')], ['decoded stream data'])
p('C07', 'Predictors are undone exactly',
  'For every combination of row contents, row filter types, colours, bits per component and columns, undoing the PNG '
  'predictors (and the TIFF predictor for 8-bit components) behind Flate or LZW returns the original samples. '
  'Missing parameters take their standard default values.',
  ['inputs', 'configurations'], 'all small images over boundary byte values, all row filter sequences, all geometries',
  'No test decodes a predictor other than the Up rows of one cross-reference stream.',
  ['utils/generic.py', 'parser/PDFStream/__init__.py'],
  [('apply_png_predictor', 'utils/generic.py')], ['decoded stream data'])
p('C08', 'Group 4 fax images are decoded to the pixels that were encoded',
  'For every bilevel image, decoding its Group 4 (CCITT T.6) encoding yields exactly its pixels, row by row, for every '
  'run length including make-up codes, with the polarity, alignment and default parameters the standard defines.',
  ['inputs'], 'all images up to the bound of pixels and all run lengths to 2623 against a reference encoder',
  'No test decodes a fax image.',
  ['parser/PDFStream/ccitt.py', 'parser/PDFStream/__init__.py'],
  [('mode and run-length code trees', 'parser/PDFStream/ccitt.py')], ['decoded stream data'])
p('C09', 'Encrypted files reveal their exact content to a right password only',
  'For every supported standard security handler, key length, permission value and metadata setting, opening with the '
  'user or the owner password yields exactly the original strings and streams, and any other password is refused with '
  'a password error. The permission flags reported, and refusal to extract text when they forbid it, follow the '
  'permission entry.',
  ['inputs', 'configurations'], 'all handler versions x passwords x permission bits x object kinds x lengths modulo block size',
  'No test opens an encrypted file.',
  ['parser/PDFDocument/PDFSecurityHandler.py', 'parser/PDFDocument/__init__.py', 'parser/PDFStream/util.py'],
  [('key derivation and authentication', 'parser/PDFDocument/PDFSecurityHandler.py')],
  ['document opening, strings, stream data'])
p('C10', 'Saving and restoring the graphics state brackets every change',
  'For every content program, each painted item carries the stroking and non-stroking colour and line width in force at '
  'that point, where q and Q save and restore transformation, colours, line style and text state in strict stack order, '
  'and an unmatched Q changes nothing. The transformation in force is the product of the matrices applied since the '
  'page start. A device colour is reported alike whichever operators set it. The colour between selecting a colour space and setting a colour in it is not claimed.',
  ['programs', 'histories'], 'all operator sequences to the bound over save, restore, matrix, colour, width, text state and painting',
  'One test checks colours of one document; nesting and interleavings of state operators are unbounded.',
  ['interpreter/commands/commands.py', 'interpreter/commands/state/__init__.py',
   'interpreter/commands/state/PDFGraphicState/__init__.py'],
  [('q / Q / cm / colour operators', 'interpreter/commands/commands.py')], ['items delivered for a page'])
p('C11', 'Every painted path is reported once with its true shape and extent',
  'For every sequence of path construction and painting operators, each painting operator reports exactly the '
  'subpaths constructed since the last one, in page space, with the line width and both colours in force and the right '
  'even-odd flag; n, clipping, and painting without a path report nothing. An open two-point path is a (horizontal, '
  'vertical or general) line, a closed upright four-corner path is a rectangle, anything else a general curve, and its '
  'bounding box is that of its end points.',
  ['programs', 'inputs'], 'all operator sequences to the bound over a small coordinate grid and all painting operators and matrices',
  'Tests look at colours of curves only.',
  ['interpreter/commands/commands.py', 'interpreter/commands/state/layout/__init__.py',
   'interpreter/commands/state/layout/LTCurves.py', 'interpreter/commands/state/Curves.py'],
  [('path painting', 'interpreter/commands/commands.py'), ('make_curve', 'interpreter/commands/state/layout/__init__.py')],
  ['items delivered for a page'])
p('C12', 'Every glyph is placed where the PDF text model puts it',
  'For every sequence of text operators, each shown glyph has the origin, advance and box computed by the text model of '
  'the standard from the text matrix, line matrix, font size, glyph width, character and word spacing, horizontal '
  'scaling, leading, rise, TJ adjustments and the transformation in force. Text state set outside a text object '
  'persists into the following ones and the line and text matrices start afresh with each BT.',
  ['programs', 'histories'], 'all text operator sequences to the bound, horizontal and vertical fonts',
  'Tests compare whole-document output of a few files; operator interplay is not varied.',
  ['interpreter/commands/commands.py', 'interpreter/commands/state/PDFTextState/__init__.py',
   'interpreter/commands/state/layout/LTCharBlock.py', 'interpreter/commands/state/layout/LTChar.py',
   'interpreter/commands/state/layout/utils/textdecoder.py'],
  [('text operators', 'interpreter/commands/commands.py'),
   ('glyph advance', 'interpreter/commands/state/layout/utils/textdecoder.py')], ['character items of a page'])
p('C13', 'Shown codes become the right characters',
  'For every simple font with a standard, WinAnsi or MacRoman base encoding or the encoding of an embedded Type 1 program, '
  'and every composite font with an Identity or embedded CMap, each shown code yields the character given by its ToUnicode '
  'map, else (simple fonts) by Differences or the base encoding, with the width the font declares for it, and nothing of '
  'one font leaks into another even when fonts share objects or are used repeatedly. A code that has no character raises '
  'the library error, or contributes no text when bad characters are ignored.',
  ['inputs', 'configurations'], 'all 256 codes of every base encoding, all small Differences arrays, all code lengths, all font kinds',
  'Tests extract text with the fonts of a few files only.',
  ['parser/EncodingDB.py', 'utils/text.py', 'parser/cmapdb/__init__.py',
   'interpreter/commands/state/PDFTextState/PDFFont/fonts.py',
   'interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py',
   'interpreter/commands/state/PDFTextState/PDFFont/util.py'],
  [('encodings and Differences', 'parser/EncodingDB.py'), ('font classes', 'interpreter/commands/state/PDFTextState/PDFFont/fonts.py')],
  ['character items of a page'])
p('C14', 'A form is drawn as if its content stood in its own bracketed state',
  'For every nesting of form XObjects, the items inside a form equal those of its content run with the form matrix '
  'applied to the caller transformation and the caller graphics state, with the form resources (or the page resources '
  'if it has none), and drawing a form leaves the state of the caller untouched. Items appear in painting order, each '
  'invocation once.',
  ['programs'], 'all nestings to depth 3 and all operator contexts to the bound around and inside the forms',
  'One test checks that forms of one document contain something.',
  ['interpreter/commands/__init__.py', 'interpreter/commands/commands.py',
   'interpreter/commands/state/layout/LTXObject.py', 'interpreter/commands/state/layout/__init__.py'],
  [('nested interpretation', 'interpreter/commands/__init__.py')], ['items delivered for a page'])
p('C15', 'Reading pages again, partly or interleaved changes nothing',
  'For every history of iterating over a document and its pages (partly, repeatedly, interleaved, out of order, after '
  'other documents, with or without preloading and caching) each page yields the same items as when it is read alone '
  'from a freshly opened document.',
  ['histories', 'schedules'], 'all interleavings of iteration steps on two documents and several iterators up to the bound',
  'Tests iterate once from beginning to end.',
  ['interpreter/__init__.py', 'interpreter/PageInterpreter.py', 'interpreter/commands/__init__.py'],
  [('page cache and lazy file', 'interpreter/__init__.py'), ('page state', 'interpreter/PageInterpreter.py')],
  ['pages and items delivered'])
p('C16', 'JSON output is valid and carries the document',
  'For every document the JSON output is a valid JSON text that, parsed, contains exactly the pages, items, '
  'characters, numbers and colours that were interpreted, in the same nesting and order, for every character that text '
  'can contain.',
  ['inputs', 'programs'], 'all characters in text, all small item trees and combinations of empty containers',
  'Tests compare a handful of outputs; special characters and empty containers do not occur.',
  ['converters/json.py', 'converters/writers/json.py'],
  [('JSON writer', 'converters/writers/json.py'), ('JSON converter', 'converters/json.py')], ['converted file'])
p('C17', 'XML output is well formed and carries the document',
  'For every document the XML output is well-formed XML that, parsed, contains exactly the pages, items and characters '
  'that were interpreted, in the same nesting and order; characters that XML cannot represent are the only ones '
  'omitted.',
  ['inputs', 'programs'], 'all characters in text and names, all small item trees',
  'Tests compare a handful of outputs without special characters.',
  ['converters/xml.py', 'converters/writers/xml.py'],
  [('XML writer', 'converters/writers/xml.py'), ('XML converter', 'converters/xml.py')], ['converted file'])
p('C18', 'YAML output is valid and carries the document',
  'For every document the YAML output is valid YAML that, parsed, contains exactly the pages, items, characters and '
  'colours that were interpreted, in the same nesting and order, for every character that text can contain.',
  ['inputs', 'programs'], 'all characters in text and names, all small item trees',
  'Tests compare a handful of outputs without special characters.',
  ['converters/yaml.py', 'converters/writers/yaml.py'],
  [('YAML writer', 'converters/writers/yaml.py'), ('YAML converter', 'converters/yaml.py')], ['converted file'])
p('C19', 'HTML output is well formed and carries the text and boxes of the document',
  'For every document the HTML output is balanced markup in which, once parsed, every block of text appears exactly '
  'once with exactly its characters and every curve and image appears as an element with its geometry; device gray and '
  'RGB colours appear as the equal CSS colour; text and names never turn into markup.',
  ['inputs', 'programs'], 'all characters in text and names, all small item trees, degenerate geometry',
  'Tests only check that conversion ends.',
  ['converters/html.py', 'converters/writers/html.py'],
  [('HTML writer', 'converters/writers/html.py'), ('HTML converter', 'converters/html.py')], ['converted file'])
p('C20', 'Plain text output contains the text of the document in order',
  'For every document the plain text output contains exactly the characters shown on the selected pages, in the order '
  'shown, whatever other content stands between them, and the same text as the other output formats.',
  ['inputs', 'programs'], 'all small item trees and selections, all output formats',
  'Tests only check that conversion ends.',
  ['converters/text.py', 'converters/__init__.py'],
  [('text converter', 'converters/text.py'), ('convert_file', 'converters/__init__.py')], ['converted file'])
p('C21', 'Inline images carry their exact data and do not disturb what follows',
  'For every inline image in a content stream, its attributes and its data (up to the end marker standing between white '
  'space) are those written, whatever bytes the data contains and wherever buffers end, and the operators behind it '
  'are interpreted as if the image had not been there.',
  ['inputs'], 'all short data strings over the marker alphabet, all alignments',
  'No test contains inline image data that resembles the end marker.',
  ['parser/PDFContentParser.py', 'interpreter/commands/commands.py'],
  [('inline data scan', 'parser/PDFContentParser.py')], ['image items and following items'])
p('C22', 'Exported images hold the pixels of the document images',
  'For every image with 1-bit or 8-bit gray or RGB samples the exported bitmap file, read by an independent decoder, has '
  'the width, height and pixels of the source; gray and RGB JPEG images are exported byte for byte. Distinct images never overwrite '
  'each other.',
  ['inputs', 'configurations'], 'all small images, all widths modulo row padding, all depths and colour spaces, both export paths',
  'One test writes images and looks at nothing but their presence.',
  ['BMPWriter/__init__.py', 'interpreter/commands/state/layout/LTImage.py'],
  [('bitmap writer', 'BMPWriter/__init__.py')], ['exported files'])
p('C23', 'Character maps assign exactly the codes they define',
  'For every embedded character map, each code of a single mapping, a range or an array range maps to exactly the '
  'characters defined for it and no other code maps to anything, for every code length, including surrogate pairs, '
  'several characters per code and ranges that cross a byte.',
  ['inputs', 'programs'], 'all small map programs over the mapping operators, all codes compared',
  'Tests read the maps of a few fonts.',
  ['parser/cmapdb/__init__.py'], [('CMap parser', 'parser/cmapdb/__init__.py')], ['characters of text shown with the map'])
p('C24', 'Dividing page content into several streams changes nothing',
  'For every content program and every way to divide it, between tokens, into an array of content streams (including '
  'empty ones, filtered ones and references), the page yields the same items as with one stream.',
  ['inputs', 'programs'], 'all divisions of several programs at all token boundaries',
  'Test files use one stream or streams that end in white space.',
  ['parser/PDFContentParser.py', 'interpreter/commands/__init__.py'],
  [('stream concatenation', 'parser/PDFContentParser.py')], ['items delivered for a page'])
p('C25', 'Named destinations and outlines are found completely',
  'For every name tree and every outline tree, looking up a name finds its value exactly if the tree contains it and '
  'otherwise reports that it is missing, and walking the outlines delivers every entry with a destination or an action once, in order, with its level, '
  'title and destination.',
  ['inputs'], 'all small name trees with all keys around them, all small outline trees',
  'No test uses destinations or outlines.',
  ['parser/PDFDocument/__init__.py'],
  [('lookup_name / get_dest', 'parser/PDFDocument/__init__.py'), ('get_outlines', 'parser/PDFDocument/__init__.py')],
  ['document API'])
p('C26', 'Stream data is exactly the bytes the stream holds',
  'For every stream whose Length is right, direct or indirect, the data read is exactly the Length bytes that follow '
  'the stream keyword line, whatever bytes they are (including line ends and the words endstream and endobj) and '
  'whatever ends the lines; when Length is missing or wrong the data up to endstream is read.',
  ['inputs'], 'all short stream data over the marker alphabet, all line ends, all forms of Length',
  'Test streams are compressed and contain no markers.',
  ['parser/PDFParser.py', 'parser/PDFDocument/__init__.py'],
  [('stream reading', 'parser/PDFParser.py')], ['stream data'])
p('C27', 'Reading a document always ends',
  'For every document, however its references, page tree, cross-reference chain, forms, outlines, names, filters or '
  'Length entries refer to each other, in particular in cycles, opening it and reading its pages, text and outlines '
  'ends after finitely many steps with content or with an error of the library.',
  ['inputs', 'programs'], 'all reference graphs up to the bound in every position that is followed',
  'No test document contains a cycle.',
  ['parser/PDFDocument/__init__.py', 'parser/PDFPage.py', 'parser/PDFStream/util.py', 'interpreter/commands/__init__.py'],
  [('reference resolution', 'parser/PDFStream/util.py'), ('tree walks', 'parser/PDFPage.py')], ['termination'])
p('C28', 'Faulty operators affect nothing but themselves',
  'For every valid content program into which an unknown operator, an operator with missing or ill-typed operands, a '
  'reference to a missing resource, or stray operands are inserted, either reading fails with an error of the library '
  'or the items of the remaining operators are the same as without it.',
  ['programs', 'fault_sequences'], 'every faulty operator at every position of several programs',
  'No test contains a malformed content stream.',
  ['interpreter/commands/__init__.py', 'interpreter/commands/commands.py'],
  [('operator dispatch', 'interpreter/commands/__init__.py')], ['items delivered for a page'])

p('C30', 'Damaged data ends in content or an error of the library',
  'For every document with damaged or hostile contents (truncated anywhere, bytes replaced, entries missing or of the '
  'wrong type or size, impossible filter parameters, faulty character maps, fonts, images, encryption or cross-reference '
  'entries), opening it, reading its pages, images, text and outlines and converting it ends with content or with an '
  'error of the library, never with another exception, and neither hangs nor exhausts the memory.',
  ['inputs', 'crash_points'], 'every entry x a pool of values of all types and sizes, every truncation, all short byte '
  'strings per filter', 'Tests read a dozen of mostly valid files.',
  ['parser/PDFStream/__init__.py', 'utils/generic.py', 'utils/lzw.py', 'parser/PDFStream/ccitt.py', 'parser/cmapdb/__init__.py',
   'parser/PDFDocument/PDFSecurityHandler.py', 'interpreter/commands/state/PDFTextState/PDFFont/fonts.py'],
  [('filters', 'parser/PDFStream/__init__.py'), ('encryption', 'parser/PDFDocument/PDFSecurityHandler.py')],
  ['content delivered', 'exceptions raised'])

p('C29', 'Reading a document touches no file but its own',
  'For every document, whatever its names and strings contain (encodings, base fonts, character collections, resource '
  'names, file specifications, paths leading elsewhere), opening it, reading its text and outlines and converting it '
  'opens no files but the document, the data files of the library and the outputs asked for, and creates none outside '
  'the places chosen for output.',
  ['inputs'], 'every name-bearing entry x every hostile path string', 'No test contains a hostile name.',
  ['parser/cmapdb/__init__.py', 'interpreter/commands/state/PDFTextState/PDFFont/fonts.py', 'utils/generic.py'],
  [('loading of character maps', 'parser/cmapdb/__init__.py'), ('image export', 'converters/writers')],
  ['files opened by the process'])

p('C31', 'The options of a conversion mean the same for every output',
  'For every combination of output type, codec, password, selection and limit of pages, caching, check for extraction '
  'permission and handling of undefined characters, each output of convert_file holds exactly the selected pages '
  '(what reading the document with these options delivers), encoded as one text in the codec, or the conversion fails '
  'with the library error that reading fails with. An output without a name takes the name of the document with its '
  'extension replaced; a conversion never overwrites the document it reads, under whatever name. The converter script '
  '(tools/pdfconvert.py) does with each combination of its options what its help says. What the text output does with '
  'characters the codec lacks is left open.',
  ['inputs', 'configurations'], 'every combination of the options x kinds of documents', 'Tests convert with the default options.',
  ['converters/__init__.py', 'converters/writers', '../tools/pdfconvert.py'],
  [('conversion', 'converters/__init__.py'), ('command line', '../tools/pdfconvert.py')],
  ['the bytes of the outputs', 'exit status of the script'])

p('C32', 'Fonts and images report the attributes the document declares',
  'For every font dictionary, each shown character and block reports the name, flags, ascent, descent, italic angle, '
  'leading, box and weight that the font descriptor declares, directly or by reference, those of the standard font when it '
  'is one without a descriptor, and neutral values for missing entries; whether it is bold follows from the weight, or from the name '
  'when there is no weight, for every font. The size of an unrotated character or block is the height of its box. Every image reports the '
  'size, depth, colour space and mask entry of its dictionary, distinct images have distinct names and an image keeps its '
  'name. Nothing of one font or image shows on another, in whatever order they are used.',
  ['inputs', 'histories'], 'all subsets of entries x values x ways to write them, all orders of a pool of fonts and images',
  'Tests look at text and colours, never at font or image attributes.',
  ['interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py', 'interpreter/commands/state/PDFTextState/PDFFont/fonts.py',
   'interpreter/commands/state/layout/LTImage.py', 'interpreter/commands/state/layout/LTChar.py'],
  [('font attributes', 'interpreter/commands/state/PDFTextState/PDFFont/PDFFont.py'), ('image attributes', 'interpreter/commands/state/layout/LTImage.py')],
  ['fonts and images of the items delivered for a page'])

p('C33', 'Where a value is stored and how its absence is written make no difference',
  'For every document, any value of any dictionary or array may stand in its place or be an indirect reference to an object '
  'that holds it: alone or together with others, in a table, an object stream or an encrypted file, all that is read stays the same '
  '(boxes and attributes of pages, text, fonts, graphics, images, forms, outlines, destinations, information, all conversions). '
  'An entry that is null, or refers to null or to no object, reads like no entry, and entries of no meaning change nothing.',
  ['inputs'], 'all values of four documents of all kinds of objects, in pairs and all at once, all entries absent in four ways, all dictionaries x entries that are null',
  'Writers choose what to store by reference; the tests have the choices of a few writers.',
  ['parser/PDFStream/util.py', 'parser/PDFPage.py', 'parser/PDFDocument/__init__.py', 'interpreter/commands/utils.py', 'interpreter/commands/commands.py',
   'interpreter/commands/state/PDFTextState/PDFFont/fonts.py', 'converters/utils.py'],
  [('reference resolution', 'parser/PDFStream/util.py'), ('uses of values', 'interpreter/commands/commands.py')],
  ['everything read of the documents'])

p('C34', 'Glyphs of embedded TrueType programs become their characters',
  'For every composite font with Identity ordering whose descriptor embeds a TrueType program and that has no ToUnicode map, each shown code becomes '
  'a character that the character map of the program uses for its glyph: the glyph is the CID of the code, or what a CIDToGIDMap stream '
  'gives for it. This holds for every map of formats 0 and 4 (segments by difference or by glyph arrays, in any division), '
  'wherever the table stands in the program. Maps of Unicode codes decide when there are any, Mac Roman maps otherwise, maps of other character sets never. '
  'Glyph 0 and glyphs without a code have no character; a ToUnicode map takes precedence; a damaged program never gives wrong characters '
  'by being cut short, and fonts that share a program do not influence each other.',
  ['inputs', 'configurations'], 'all assignments of glyphs to characters x divisions into segments, all sequences of tables, all glyph maps, all truncations',
  'The samples have ToUnicode maps or fonts without an embedded map.',
  ['interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py', 'interpreter/commands/state/PDFTextState/PDFFont/fonts.py'],
  [('character maps of TrueType programs', 'interpreter/commands/state/PDFTextState/PDFFont/TrueTypeFont.py'), ('glyphs of composite fonts', 'interpreter/commands/state/PDFTextState/PDFFont/fonts.py')],
  ['text of the characters delivered for a page'])

p('C35', 'Predefined character maps divide text into their codes',
  'For every composite font whose encoding names a character map of the data directory (CMAP_PATH), or an embedded map based on '
  'one (by UseCMap, by usecmap, through other embedded maps), a shown string is divided into exactly the codes of the map, of whatever lengths, '
  'in order; each code takes the CID of the map, or of the embedded map where that defines it, and with it its width. The character is what a '
  'ToUnicode map gives for the code, otherwise what the data of the collection give for the CID in the direction of the map; word spacing goes to '
  'the single-byte code 32 and no other; the direction of writing is that of the map. Fonts that use the same data do not influence each other.',
  ['inputs', 'configurations', 'histories'], 'all small trees of codes x directions x sources of characters x all pairs of codes, embedded maps based on them, all sequences of fonts',
  'The data are not in the repository; no test uses predefined maps.',
  ['parser/cmapdb/__init__.py', 'interpreter/commands/state/PDFTextState/PDFFont/fonts.py', 'interpreter/commands/state/layout/utils/textdecoder.py'],
  [('predefined maps', 'parser/cmapdb/__init__.py'), ('composite fonts', 'interpreter/commands/state/PDFTextState/PDFFont/fonts.py')],
  ['text and boxes of the characters delivered for a page'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    print(len(P))
