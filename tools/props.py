NA = {}
P = []


def p(id, title, statement, over, text, why, files, mech, note, **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, **kw))


p('C01', 'Text put into paragraphs, list items and cells is read back as put in',
  'A new paragraph, heading, span, hyperlink, list item or list header made from a text has exactly that text as plain text, whatever blanks, tabs and line breaks the text contains. '
  'Appending a text to a paragraph, heading, span or hyperlink makes its plain text the old plain text followed by the new text, keeps every present child, the attributes and all other elements. '
  'The plain text of such an element is its own text followed by the plain text and the trailing text of each child in order; that of a list item or list header is the plain text of its children, one line each; '
  'that of a cell is the plain text of its paragraphs and headings, one line each. '
  'Appending a text to a cell of type string continues its last paragraph or heading if that is the last content of the cell, and otherwise starts a new paragraph; cells of other types refuse it with TypeError and stay as they were.',
  ['inputs', 'histories'], 'every text, every content of the element before (any number and nesting of children, with or without tails) and every sequence of append operations',
  'Tests use a few short texts on new paragraphs; appending after children with tails, blanks at the ends of the appended text and mixed content of cells are not sampled.',
  ['ezodf/text.py', 'ezodf/whitespaces.py', 'ezodf/cells.py', 'ezodf/base.py'],
  [('where each piece of the text goes: own text, tail of the last child, or a new child', 'ezodf/text.py Span.append_text'),
   ('reading the text of mixed content in document order', 'ezodf/text.py Span.plaintext, ListHeader.plaintext, ezodf/cells.py Cell.plaintext'),
   ('continuing or starting a paragraph of a cell', 'ezodf/cells.py Cell.append_text')],
  'Texts are strings XML can represent. Content consists of elements (comments and processing instructions are outside).')

p('C02', 'Encoding blanks, tabs and line breaks as elements loses nothing',
  'Encoding a text yields a list of pieces that decodes to exactly that text. Every text piece is non-empty and contains no line break, no tab and no two consecutive spaces (what XML processing would collapse); '
  'every other piece is a new, detached and distinct whitespace element. A whitespace element reads as, and has the length of, what it stands for: a tab, a line break, its number of spaces (one if no number is stored), nothing for a soft page break. '
  'Encoding changes no existing element and no list returned before.',
  ['inputs', 'histories'], 'every text, and every sequence of encodings',
  'Tests encode about twenty texts; runs of blanks at every position next to every other kind of character are not covered, nor is the state the shared encoder keeps from one call to the next.',
  ['ezodf/whitespaces.py'],
  [('run counting and splitting of the text', 'ezodf/whitespaces.py _WhitespaceEncoder.encode'), ('decoding', 'ezodf/whitespaces.py decode_whitespaces'),
   ('what an element stands for', 'ezodf/whitespaces.py Tabulator, LineBreak, Spaces, SoftPageBreak')],
  'A single space at the begin of a piece is kept as text (not claimed to survive the space collapsing of other consumers).')

p('C03', 'The text length of an object is the length of its plain text',
  'For every content object the library wraps, textlen equals the number of characters of plaintext(), and computing either changes nothing.',
  ['inputs'], 'every registered content class, every own text, every number and nesting of children with any plain text and tails',
  'Tests compare the two on three sample paragraphs; the classes compute them by different code.',
  ['ezodf/base.py', 'ezodf/text.py', 'ezodf/whitespaces.py'],
  [('the length summed over children and tails', 'ezodf/text.py Span.textlen'), ('length of the plain text', 'ezodf/base.py GenericWrapper.textlen'), ('lengths of whitespace elements', 'ezodf/whitespaces.py')],
  'The number of spaces stored in a text:s element is a non-negative integer. Style and metadata classes have no plain text.')

p('C04', 'A table cell holds exactly the value last assigned to it',
  'After a value is assigned to a table cell, with an inferred or an explicit value type and an optional currency, reading the cell gives back that value in that type '
  '(truth values as truth values, numbers as numbers, everything else as text, paragraphs and headings by their text). '
  'Nothing of the former value remains: no other typed value, no old text content, and no currency on a cell that is not a currency cell. '
  'An assignment that is rejected (no value, unsupported object, unknown type, empty non-text value) leaves the cell as it was.',
  ['inputs', 'histories'], 'every value, every value type and currency argument, and every previous state of the cell in which only the value of its type is stored',
  'Tests assign a handful of values to fresh cells; the interplay of old type, new type, currency and content is never explored.',
  ['ezodf/cells.py', 'ezodf/base.py'],
  [('set_value: validation, type inference, conversion, clearing of the old value', 'ezodf/cells.py Cell.set_value'),
   ('typed reading', 'ezodf/cells.py Cell.value')],
  'Assumed at call sites: Paragraph(text) yields a paragraph with that plain text, plaintext() returns it (C01, C03). Floats and int/float text conversion are uninterpreted round-trip functions.')

p('C14', 'Document metadata behaves as a dictionary, a keyword set and a counter map',
  'A metadata entry that is set reads back as set, is stored once, and changes no other entry; unknown names raise KeyError and change nothing. '
  'Keywords behave as a set, user-defined tags as a dictionary from name to text and type, statistics as a map of counters, each independent of the others, and the editing cycle counter always grows by one. '
  'All of this survives saving and reloading the metadata document.',
  ['inputs', 'histories'], 'every metadata document, every key, name and value, and every sequence of set, add, remove and clear operations',
  'Tests read one sample document and set single entries; no test mixes operations or looks at the entries that must not change.',
  ['ezodf/meta.py', 'ezodf/xmlns.py'],
  [('find-or-create of the element of an entry', 'ezodf/meta.py OfficeDocumentMeta.__setitem__, ezodf/xmlns.py subelement'),
   ('lookup by name', 'ezodf/meta.py Usertags._find, Keywords._find'), ('counters as attributes', 'ezodf/meta.py Statistic')],
  'Serialization of the document itself is lxml\'s (driver replays a reload).')

p('C13', 'The package manifest lists every path once with the latest media type',
  'The manifest is a map from full path to media type and version. Adding a path creates exactly one entry or updates the existing one in place, keeping a version that is not given; '
  'removing a path removes exactly its entry and ignores an absent path; the manifest never lists itself; lookup finds the entry of exactly that path; all other entries and their order stay.',
  ['inputs', 'histories'], 'every manifest with distinct paths, every path, media type and version, and every sequence of additions and removals',
  'Tests add and remove a few paths; they do not look at the other entries or at repeated additions with and without version.',
  ['ezodf/manifest.py'],
  [('find-or-create of an entry', 'ezodf/manifest.py Manifest.add'), ('lookup and removal', 'ezodf/manifest.py Manifest.find, Manifest.remove')],
  'Manifests with the same path listed twice are outside the precondition.')

p('C16', 'Setting a variable or user field updates all its instances and nothing else',
  'Assigning a value (text, number or truth value) to a declared variable or user field gives every instance of that name and kind anywhere in the document the text and the value type of the value, '
  'so that every instance, the declaration type, the user field itself and (given an instance) the variable read the value back. Instances of other names, user fields versus variables of the same name, '
  'the document structure and all other elements stay as they were, for names with any characters.',
  ['inputs', 'histories'], 'every document tree with any number of declarations and instances, every name, every text, number and truth value',
  'Tests use one fixed document with one instance per variable and two or three values.',
  ['ezodf/variables.py', 'ezodf/base.py'],
  [('propagation to the instances', 'ezodf/variables.py Variable.instances, SimpleVariable.value, UserField.value'),
   ('typed instance values', 'ezodf/variables.py SimpleVariableInstance.value'), ('document root', 'ezodf/base.py GenericWrapper.get_xmlroot')],
  'The name-to-variable dictionary of the container is bounded: only exercised by the driver.')

p('C17', 'Every wrapped element is a list of children and a map of attributes',
  'Through a wrapper, the children of an element behave as a Python list: append, insert, insert before a child, item access, item assignment, deletion, replacement, removal, index, length and iteration '
  'act on exactly the addressed child, with negative indices counted from the end, IndexError beyond the ends and ValueError for an element that is no child, both without any change. '
  'Attributes behave as a map that reads back what was set (empty values are rejected), and reading never changes the element.',
  ['inputs', 'histories'], 'every element with any children and attributes, every index within the documented range, every detached element inserted, every attribute name and value',
  'Tests use lists of three or four children and a few indices.',
  ['ezodf/base.py', 'ezodf/xmlns.py'],
  [('list protocol', 'ezodf/base.py GenericWrapper'), ('attribute protocol', 'ezodf/base.py GenericWrapper.get_attr, set_attr, get_bool_attr, set_bool_attr'),
   ('search', 'ezodf/base.py GenericWrapper.find, findall')],
  'The class of the wrapper of a child is left out; insert is specified for -n <= index <= n.')

p('C15', 'Sheets and pages are a list of exactly the tables or pages of the body, in document order, with names',
  'The sheets (pages) of a document are the tables (drawing pages) directly in its body: length, iteration, names, index and access by position or name (the first of that name) agree with each other and with the document. '
  'Append, insert (with the semantics of list.insert), item assignment and deletion change exactly the addressed position of that list and leave every other child of the body in place and in order; '
  'absent positions raise IndexError, absent names KeyError, other keys TypeError, and append or assignment of an object of another kind TypeError, all without any change. '
  'The same sheet is always represented by the same object until the cache is cleared.',
  ['inputs', 'histories'], 'every body with any mixture of sheets (pages) and other elements, every position and name, every detached new sheet or page',
  'Tests use bodies with only a few sheets and nothing else between them.',
  ['ezodf/pagecontainer.py', 'ezodf/sheets.py', 'ezodf/pages.py', 'ezodf/wrapcache.py'],
  [('list protocol relative to the child tag', 'ezodf/pagecontainer.py AbstractPageContainer'), ('object identity', 'ezodf/wrapcache.py _WrapCache')],
  'Insert does not check the kind of the new child (not part of the property). That two lookups give the identical object is bounded (driver).')

p('C22', 'Style containers map each style name to the first style element of that name',
  'The font, style, automatic style and master style sections of a styles document exist exactly once (an existing section is used, a missing one created). In each section, looking up a name gives the first style element of exactly that name '
  '(styles of different families may share a name), or KeyError if there is none; assigning a style under its name replaces that element in place or appends the style if there is none, and changes no other style; lookups before and after an assignment agree with the document. '
  'Attributes of a style read the attribute of that name, unknown attribute names raise KeyError.',
  ['inputs', 'histories'], 'every styles document (repeated names and nameless children included), every name, every sequence of lookups and assignments through the containers',
  'Tests look up one existing and one missing style; the name cache is never exercised with a replacement.',
  ['ezodf/styles.py', 'ezodf/xmlns.py'],
  [('lookup with a name cache', 'ezodf/styles.py Container'), ('sections', 'ezodf/styles.py OfficeDocumentStyles._setup'), ('attribute map', 'ezodf/styles.py BaseStyle.__getitem__')],
  'Styles are assigned under their own name, and not renamed, moved or removed behind the container.')

GRID = 'the table has at least one row and one cell per row, equally long rows, no nested sub-tables, and (for columns) one column description per column'
p('C06', 'Row operations insert and delete exactly the addressed rows',
  'Appending, inserting and deleting rows of a table changes exactly the addressed rows: the other rows keep their order, their cells and their attributes, new rows have as many empty cells as the table has columns, '
  'columns and column descriptions stay, the row count changes by exactly the given number, negative indices count from the end, and what the table object shows (size, cells, rows, columns, row descriptions) '
  'is always what stands in the document, also for rows inside header rows or row groups; new rows stand in the group of the row before which they are inserted, or of the last row for append.',
  ['inputs', 'histories'], 'every normalized table of any size and any nesting of row groups, every index and count within range, every sequence of operations',
  'Tests use one table size and one or two indices, and look at single cells afterwards.',
  ['ezodf/table.py', 'ezodf/tablerowcontroller.py'],
  [('row operations on document and row cache together', 'ezodf/tablerowcontroller.py TableRowController'), ('table interface', 'ezodf/table.py Table')],
  'Precondition: ' + GRID + '.')

p('C07', 'Column operations insert and delete exactly the addressed column in every row and in the column descriptions',
  'Appending, inserting and deleting columns of a table changes in every row exactly the cells of the addressed columns and, in step with them, the column descriptions: '
  'all other cells and column descriptions keep their order and content, new cells and descriptions are empty, every row keeps the same number of cells as every other, rows stay, '
  'negative indices count from the end, and the column count changes by exactly the given number.',
  ['inputs', 'histories'], 'every normalized table of any size and any nesting of row and column groups, every index and count within range, every sequence of operations',
  'Tests use one table size and one or two indices, and never compare cells and column descriptions.',
  ['ezodf/table.py', 'ezodf/tablerowcontroller.py', 'ezodf/tablecolumncontroller.py'],
  [('column operations on every row', 'ezodf/tablerowcontroller.py TableRowController'), ('column descriptions', 'ezodf/tablecolumncontroller.py TableColumnController')],
  'Precondition: ' + GRID + '.')

p('C08', 'A rejected table operation leaves the table unchanged',
  'A table operation with an invalid count (less than one; as many rows or columns as there are, for deletion), a position outside the table, an invalid size, an invalid cell address or something that is no cell '
  'raises (ValueError, IndexError, TypeError) and leaves the document and the table object exactly as they were.',
  ['inputs', 'histories'], 'every normalized table, every invalid argument of every table operation, after any sequence of operations',
  'Tests check that some invalid calls raise, not what is left of the table afterwards.',
  ['ezodf/table.py', 'ezodf/tablerowcontroller.py', 'ezodf/tablecolumncontroller.py', 'ezodf/tableutils.py'],
  [('validation before the first modification', 'ezodf/tablerowcontroller.py TableRowController'), ('column descriptions', 'ezodf/tablecolumncontroller.py TableColumnController.insert, delete'),
   ('cell access', 'ezodf/tablerowcontroller.py TableCellAccessor')],
  'Precondition: ' + GRID + '. Cell spans are C09.')

p('C09', 'A cell span covers exactly its range, spans never overlap, and removing a span undoes it',
  'Setting a span of a size at a position (a pair or an address) of a table makes the cell there span that size and covers exactly the other cells of the range; every other cell, the values and contents of all cells, and rows and columns stay. '
  'It is rejected without any change, with IndexError for a negative position and ValueError for a size less than one, a range beyond the table, or a range that touches another span (a spanning or a covered cell). '
  'So every covered cell belongs to exactly one span at any time. Removing the span of a spanning cell uncovers exactly its range and leaves a single cell; for a cell that spans nothing it changes nothing. '
  'span and covered of every cell tell what stands in the document.',
  ['inputs', 'histories'], 'every normalized table whose spans do not overlap and stay within it, every position and size, every sequence of setting and removing spans',
  'Tests set one or two spans and look at single cells; overlaps with covered cells, rejections and the rest of the table are not looked at.',
  ['ezodf/table.py', 'ezodf/cellspancontroller.py', 'ezodf/tableutils.py', 'ezodf/cells.py'],
  [('setting and removing spans', 'ezodf/cellspancontroller.py CellSpanController'), ('ranges of cells', 'ezodf/tableutils.py iter_cell_range'), ('span attributes and covered cells', 'ezodf/cells.py Cell')],
  'Precondition: ' + GRID + ', span attributes are numbers. A covered cell loses matrix span attributes, which have no meaning on it.')

p('C10', 'Loading a table expands its repeated rows, cells and column descriptions',
  'When a table is loaded, every row, cell and column description with a repetition count above one loses that count and, with the strategy "all", stands there that many times in a row: itself first, then copies with the same tag, attributes, text and content, '
  'in the same group; with "all_but_last" the last row, the last cell of each row and the last column description stand there once; with "all_less_maxcount" (the default, limits 32 and 32) those whose count reaches the limit (the first limit for rows, the second for cells and columns) stand there once. '
  'The cells of a row are expanded before the row is repeated, so every repeated row has all its cells. Then shorter rows are filled with empty cells at their end to the length of the longest. '
  'Order, groups and contents of all rows, cells and column descriptions, and everything else in the table, stay; so a loaded table is a grid, and loading it once more changes nothing.',
  ['inputs'], 'every table without nested sub-tables, of any size, nesting of groups and counts, every strategy and limits',
  'Tests expand a few hand-made tables and look at the number of rows and columns; copies, order, groups, and the interplay of repeated rows with repeated cells are sampled once or not at all.',
  ['ezodf/tablenormalizer.py', 'ezodf/tablecolumncontroller.py', 'ezodf/tableutils.py', 'ezodf/conf.py'],
  [('expansion of rows and cells', 'ezodf/tablenormalizer.py _ExpandAll, _ExpandAllButLast, _ExpandAllLessMaxCount'), ('rows of equal length', 'ezodf/tablenormalizer.py TableNormalizer.align_table_columns'),
   ('expansion of column descriptions', 'ezodf/tablecolumncontroller.py')],
  'Counts are positive integers, strategies are those documented. The table is one the library can hold (no tables inside rows).')

p('C05', 'A cell reference denotes exactly one cell, as a pair or as an address',
  'An address is accepted exactly if its upper-case form consists of letters A to Z followed by decimal digits that are not all zero; it denotes the row of that number (from 1) and the column whose bijective base-26 number the letters are '
  '(A = 1, Z = 26, AA = 27 and so on), any other text raises ValueError and any other reference that is no pair TypeError. Reading or replacing a cell, a row, a column, a row description or a column description '
  'by address, by position and by negative position from the end reaches the same element of the document, IndexError outside the table, and replacing a cell changes no other cell.',
  ['inputs'], 'every text, of any length, and every table of any size',
  'Tests convert five addresses and three wrong ones.',
  ['ezodf/tableutils.py', 'ezodf/table.py', 'ezodf/tablerowcontroller.py'],
  [('conversion of addresses', 'ezodf/tableutils.py address_to_index, get_cell_index'), ('access by address', 'ezodf/table.py Table.__getitem__, __setitem__, row, column, row_info, column_info')],
  'Precondition for the access to tables: ' + GRID + '. Texts are those CPython can convert (at most 4300 digits).')

p('C11', 'A saved package holds the registered parts as they are now and every other part of its source',
  'Whatever a document is saved to - a file, a stream or bytes, again and again - the result is a readable package whose first entry is the mimetype, not compressed, and which holds exactly once every registered part, with the bytes of its present content '
  '(text as UTF-8, bytes as they are, objects by their own serialization, XML parts with a declaration), and every other part of the package the document was opened from with unchanged bytes (pictures, settings, empty directories), and nothing else. '
  'Every registered part has exactly one entry in the manifest, with its last media type. Reading a part by name from the source gives its bytes, or nothing if it is absent.',
  ['inputs', 'histories'], 'every source package with distinct part names, every set and order of registered parts and contents, every target',
  'Tests save documents from templates and look only at a few parts.',
  ['ezodf/filemanager.py', 'ezodf/bytestreammanager.py', 'ezodf/manifest.py', 'ezodf/compatibility.py'],
  [('assembly of the package', 'ezodf/filemanager.py FileManager._tozip, _copy_zip_to'), ('content of a part', 'ezodf/filemanager.py FileObject.tobytes'),
   ('access to the source', 'ezodf/filemanager.py FileManager.get_bytes; ezodf/bytestreammanager.py ByteStreamManager')],
  'The source package can be read and does not change behind the document, the mimetype is registered as text. The zip format itself (module zipfile) is assumed.')

p('C12', 'Saving never loses the document',
  'At every moment while a document opened from a file, a new one or a flat XML document is saved to a file, the previous document of that name (under its name, or as the .bak file) or the complete new one is on disk - also if the process ends there or any file operation fails - '
  'and no other existing file is changed. If the content of some part cannot be produced, the document and its backup stay untouched, also for documents opened from memory. '
  'After a successful save the new document has the name, the previous one is the backup if one was asked for and otherwise the backup file is untouched, and nothing else is left over.',
  ['inputs', 'crash_points', 'histories'], 'every directory, file name, source and content, every point of interruption and every failing file operation',
  'Tests never interrupt a save or make it fail.',
  ['ezodf/filemanager.py', 'ezodf/bytestreammanager.py', 'ezodf/document.py'],
  [('write to a temporary file, then rename', 'ezodf/filemanager.py FileManager.save'), ('flat XML', 'ezodf/document.py FlatXMLDocument.save'), ('from memory', 'ezodf/bytestreammanager.py ByteStreamManager.save')],
  'The target is not named like a temporary file (*.tmp), no symbolic links, no other process in the directory, renaming is atomic. A failed save may leave its temporary file. '
  'Documents opened from memory are written in place, so for them only the part on content that cannot be produced is claimed.')

p('C19', 'Named settings of an object read back as set and touch nothing else',
  'The named settings of texts, headings, hyperlinks, numbered paragraphs, list items, lists, sections, tables, rows, columns, cells and drawing pages (style names, names, ids, targets, formulas, levels, start values, numbers, visibility, protection, printing and so on) are '
  'each stored in the one place ODF gives them and read back as set: texts as the same text (nothing if absent), truth values as truth values (false if absent), levels as integers of at least one (one if absent), start values as integers of at least one (nothing if absent), '
  'the formatted number as the text of the number element, the visibility of a row or column as one of visible, collapse and filter (visible if absent, other states raise ValueError without any change). '
  'Setting one replaces its former value and changes no other attribute (but the show attribute that belongs to the target of a hyperlink and the key of a protected section or table), no text, no child and no other element; deleting one makes it absent again; reading changes nothing. '
  'The header of a list becomes its first child and replaces the former header, other objects are refused with TypeError. A new object has exactly the settings it was made with.',
  ['inputs', 'histories'], 'every element of each kind with any other attributes, texts and children, every text, integer and truth value',
  'Tests set each setting once on a fresh object and look only at that one.',
  ['ezodf/propertymixins.py', 'ezodf/text.py', 'ezodf/table.py', 'ezodf/cells.py', 'ezodf/drawingpage.py', 'ezodf/base.py'],
  [('typed settings', 'ezodf/propertymixins.py StringProperty, BooleanProperty, IntegerWithLowerLimitProperty, TextNumberingMixin, TableVisibilityMixin'),
   ('settings with a second attribute', 'ezodf/text.py Hyperlink.target_frame, Section.protected, ezodf/table.py Table.protected'), ('header of a list', 'ezodf/text.py List.header'),
   ('settings given to constructors', 'ezodf/text.py, ezodf/cells.py, ezodf/drawingpage.py constructors')],
  'Texts are not empty; level and start value attributes in the document are integers. The value of the protection key is not specified. The name of a table (which is normalized) is left out.')
