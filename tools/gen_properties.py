#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording lives in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop('C01', 'Exactly the requested pages are converted, in document order',
 "Conversion and table extraction (Python API and command line, zero- or one-based numbering) process exactly the existing pages that were asked for: those of a non-empty `pages` list if one is given, otherwise the half-open range start:end with Python slice rules (no end = to the last page). Their content appears once each, in document order; a selection that matches no existing page converts nothing, never the whole document. Indexing and slicing a converter by page follows Python sequence rules.",
 ['inputs', 'configurations'], "every document length, every start/end/pages (including out-of-range, negative, empty, zero) and both numbering bases",
 "The tests use pages=[0], end=1 and start=1,end=5 only; boundary values (0, one-based first page, out of range, empty selection) are never exercised.",
 ['pdf2docx/converter.py', 'pdf2docx/main.py'],
 [('page selection', 'converter.py: _page_indexes, parse, extract_tables, make_docx, __getitem__'), ('one-based shift', 'main.py: convert, table, debug')],
 observe=['which pages are parsed', 'which pages are written and in which order', 'tables returned'])
prop('C02', 'Multi-processing converts the same pages as a sequential conversion',
 "For every document length, page selection and number of processes, a multi-processing conversion writes the same pages, with the same content and in the same order, as the sequential conversion of the same selection. Each requested page is handled by exactly one worker, and no page that was not requested is parsed or written; other files of the working directory are left unchanged.",
 ['inputs', 'configurations', 'schedules'], "every page count, selection (range or list, with gaps) and cpu count; the work of each worker is independent of the others",
 "No test turns multi-processing on, and the partition arithmetic fails only for particular (pages, cpus) combinations.",
 ['pdf2docx/converter.py'],
 [('partition of pages over workers', 'converter.py: _parse_and_create_pages_with_multi_processing, _parse_pages_per_cpu')],
 observe=['pages parsed per worker', 'pages written to the docx'])
prop('C03', 'A failing page never takes other pages with it',
 "If parsing or writing some page raises, the conversion still parses and writes every other requested page, in document order, and still saves the docx. A page whose parsing failed contributes nothing to the docx or to the extracted tables; only when no page at all could be parsed does the conversion report an error.",
 ['fault_sequences', 'inputs'], "every subset of pages failing, at the parsing or the writing stage",
 "No test injects a fault in any page.",
 ['pdf2docx/converter.py', 'pdf2docx/page/Page.py'],
 [('per-page try/except', 'converter.py: parse, make_docx'), ('finalized flag', 'page/Page.py: parse, restore, _load_source')],
 observe=['docx save call', 'pages written', 'tables returned'])
prop('C04', 'The source PDF is never deleted or overwritten',
 "For every input path, a conversion without an explicit output name writes to a path that differs from the input: same directory and stem, with only the final extension replaced by .docx. No conversion removes or writes the source PDF, and an existing docx at the output path is only replaced when there are parsed pages to write.",
 ['inputs', 'fault_sequences'], "every file name (any case of the extension, no extension, `.pdf` in the middle of the name or in a directory name)",
 "All tests pass explicit docx names next to lower-case .pdf inputs.",
 ['pdf2docx/converter.py'],
 [('output name and removal of an old docx', 'converter.py: make_docx')],
 observe=['os.remove', 'Document.save path'])
prop('C05', 'Storing and restoring parsed pages loses nothing',
 "Serialising parsed pages to JSON and restoring them gives pages that produce the same docx content and the same extracted tables: page id, size and margins, every paragraph with its spacing, alignment and tab stops, every line, run, style and character, every table with its kind, rows, merged cells, borders and shading, and every inline or floating image. Restoring does not depend on which pages were parsed earlier in the process.",
 ['inputs', 'histories'], "every parsed layout of text, tables and images within the bounds, and any page rotation active before restoring",
 "Only the reading of stored benchmark layouts is exercised; nothing compares a page with its own stored-and-restored copy.",
 ['pdf2docx/converter.py', 'pdf2docx/page/Page.py', 'pdf2docx/page/Blocks.py', 'pdf2docx/common/Block.py', 'pdf2docx/table/Cell.py', 'pdf2docx/table/TableBlock.py', 'pdf2docx/text/TextSpan.py', 'pdf2docx/text/Line.py', 'pdf2docx/image/Image.py'],
 [('store/restore pairs', 'store() and restore()/__init__(raw) of each element class')],
 observe=['store() of original and restored page', 'docx calls made from original and restored page'])
prop('C06', 'Converting again gives the same result as converting once',
 "Parsing a page a second time with the same converter and the same settings leaves the same content as parsing it once: no text, table or floating image is duplicated, lost or carried over from the previous parse, and settings passed to one conversion do not leak into the next one.",
 ['histories', 'configurations'], "every sequence of two conversions over symbolic page content and settings",
 "Every test builds a fresh converter and converts once.",
 ['pdf2docx/page/Page.py', 'pdf2docx/page/Blocks.py', 'pdf2docx/shape/Shapes.py', 'pdf2docx/page/Layout.py'],
 [('reset of page content when the source is loaded', 'page/Blocks.py: restore, reset; shape/Shapes.py: restore; page/Page.py: init_settings')],
 observe=['stored page after one and after two parses'])
prop('C07', 'Applying text styles keeps every character and styles only what is covered',
 "Applying highlight, underline, strike-through or hyperlink areas to text keeps every character exactly once and in order, whatever the geometry. A style is attached only to runs of characters that the area covers by more than half (along the reading direction), every other run keeps its previous styles, and internet hyperlinks keep their address and apply to lines whose height they cover by half.",
 ['inputs'], "every position and size of styled areas relative to characters, horizontal and vertical text, several overlapping areas",
 "The one text-format sample contains well-aligned lines only (and is not even a stable test).",
 ['pdf2docx/text/TextSpan.py', 'pdf2docx/text/Char.py', 'pdf2docx/text/Lines.py', 'pdf2docx/text/TextBlock.py'],
 [('split of spans at the styled area', 'text/TextSpan.py: split; text/Char.py: contained_in_rect; text/Lines.py: parse_text_format')],
 observe=['text and style of the spans after parsing the format'])
prop('C08', 'Runs written to the docx carry the font properties of the source text',
 "Every text span is written once with its full text; the font name (without subset prefix and style suffix), bold, italic and superscript follow the source flags independently; the written font size times the written character scaling reproduces the source size (within 1 %), for every size of at least a tenth of a point; characters that a docx cannot hold are replaced one by one and lose nothing else; text, highlight and underline colours are those of the source. A span under an internet link becomes a hyperlink with that address and the same text.",
 ['inputs'], "every font flag word, font size, colour and style list",
 "Tests compare parsed layout only; nothing reads the docx back.",
 ['pdf2docx/text/TextSpan.py', 'pdf2docx/common/docx.py'],
 [('run creation', 'text/TextSpan.py: make_docx, _set_text_format; common/docx.py')],
 observe=['docx run properties'])
prop('C09', 'Colours survive conversion',
 "Gray, RGB and CMYK colour components in [0,1] map to a 24-bit colour value whose three channels each differ by less than one level (1/255) from the exact channel value; pure black, white and primary colours map exactly. Splitting a 24-bit colour value into channels, and writing it as a six-digit hexadecimal colour, loses nothing.",
 ['inputs'], "all component values in [0,1] and all 24-bit colours",
 "Tests see a dozen colours, and never compare the channels.",
 ['pdf2docx/common/share.py', 'pdf2docx/common/docx.py', 'pdf2docx/table/Cell.py'],
 [('colour arithmetic', 'common/share.py: rgb_value, rgb_to_value, cmyk_to_rgb, rgb_component')],
 observe=['colour values', 'docx colour attributes'])
prop('C10', 'Grouping by connectivity finds exactly the connected groups',
 "Grouping elements, either by a pairwise relation or by overlap of their boxes within a tolerance, partitions them into exactly the connected components of that relation: nothing is lost or duplicated, two elements related directly or through others always land in one group, and unrelated elements never do.",
 ['inputs'], "every set of boxes (nested, crossing, sharing edges or corners, zero-size) and tolerances",
 "The sweep algorithm's cases (nesting, equal edges, degenerate boxes) depend on coordinates the samples do not contain.",
 ['pdf2docx/common/share.py', 'pdf2docx/common/Collection.py'],
 [('rectangle-intersection sweep', 'common/share.py: solve_rects_intersection, _stab; graph_bfs'), ('grouping', 'common/Collection.py: group, group_by_connectivity')],
 observe=['groups returned'])
prop('C11', 'A ruled table is recovered with its exact grid, merges, borders and fills',
 "For every table drawn as a grid with any consistent pattern of merged cells, the parsed table has the drawn rows and columns, each drawn (possibly merged) cell appears as one cell with the drawn box and row/column span and every grid position is covered by exactly one cell; each cell takes the width and colour of the strokes drawn on its edges and the colour of the fill behind it. Small offsets (less than the border clearance) between strokes of one grid line do not change the structure.",
 ['inputs'], "every rectangular tiling of a bounded grid, every row/column position, border width and colour, missing outer borders",
 "Six sample tables fix a handful of merge patterns.",
 ['pdf2docx/table/TableStructure.py', 'pdf2docx/table/TablesConstructor.py', 'pdf2docx/shape/Shape.py'],
 [('lattice structure', 'table/TableStructure.py')],
 observe=['rows, cells, merged spans, borders and shading of the table block'])
prop('C12', 'Tables are written and extracted cell for cell',
 "Writing a table creates one docx table with the same numbers of rows and columns, the same row heights, column spans, cell widths, border widths/colours and shading; merged cells are merged over exactly their span and contents go to the right cell. Extracting a table returns a rectangular list of rows with the text of every cell in its grid position and None exactly for positions hidden by a merge.",
 ['inputs'], "every merge pattern of a bounded grid, every cell geometry and style",
 "One extraction test of one sample table; the docx writing of tables is not checked at all.",
 ['pdf2docx/table/TableBlock.py', 'pdf2docx/table/Row.py', 'pdf2docx/table/Cell.py', 'pdf2docx/common/docx.py', 'pdf2docx/page/Page.py'],
 [('docx table creation', 'table/TableBlock.py, Row.py, Cell.py: make_docx, _set_style'), ('extraction', 'table/TableBlock.py: text; page/Page.py: extract_tables')],
 observe=['docx table calls', 'extract_tables result'])
prop('C13', 'Text in a table region goes to the cell it lies in, once',
 "When page content is distributed over a table, every character lying within a cell by more than half of its area is placed in that cell and in no other one, in its original order; lines lying in the table region by less than 90 % of their area stay on the page whole. No character is duplicated or lost by the distribution unless it straddles borders with half or less of it in every cell.",
 ['inputs'], "every position of text lines relative to cell borders, within the bounds",
 "Sample tables have all text well inside their cells.",
 ['pdf2docx/page/Blocks.py', 'pdf2docx/table/TableBlock.py', 'pdf2docx/table/Cell.py', 'pdf2docx/text/Line.py', 'pdf2docx/text/TextSpan.py'],
 [('assignment', 'page/Blocks.py: assign_to_tables; table/TableBlock.py: assign_blocks; table/Cell.py: assign_blocks; Line/TextSpan/ImageSpan.intersects')],
 observe=['characters per cell and on the page after assignment'])
prop('C14', 'Re-arranging lines keeps all text and yields reading order',
 "Sorting, joining side-by-side lines, and splitting them back into their source paragraphs keep every line's text exactly once - except a line overlapping its predecessor beyond the overlap threshold - and never mix the characters of different lines. After sorting, rows run top to bottom and the lines of one row run left to right (vertical text: columns left to right, bottom to top).",
 ['inputs'], "every arrangement of a bounded number of lines, horizontal and vertical text",
 "Sample pages contain regular arrangements; dropping or swapping a line needs unusual overlaps.",
 ['pdf2docx/text/Lines.py', 'pdf2docx/page/Blocks.py', 'pdf2docx/common/Collection.py', 'pdf2docx/common/Element.py'],
 [('line sorting, joining, splitting', 'text/Lines.py: sort, join, split_back; page/Blocks.py: join_horizontally, split_back; Collection.sort_in_reading_order')],
 observe=['lines and text of blocks before and after'])
prop('C15', 'Paragraph spacing reproduces the vertical positions of the page',
 "For stacked paragraphs in reading order, the space before, number of rows and line spacing written for each paragraph add up to the distance between the previous block's bottom (or the container's top) and this paragraph's bottom, so each paragraph ends where it did on the page; the written space before is never negative and line spacing of a normally placed paragraph is positive. Space between a paragraph and a following table equals their distance on the page.",
 ['inputs'], "every vertical arrangement of a bounded number of paragraphs/tables and rows, horizontal and vertical text",
 "The layout comparison has a tolerance and samples a few pages.",
 ['pdf2docx/page/Blocks.py', 'pdf2docx/text/TextBlock.py'],
 [('spacing', 'page/Blocks.py: parse_spacing; text/TextBlock.py: parse_line_spacing')],
 observe=['before_space, after_space, line_space', 'docx paragraph format'])
prop('C16', 'Paragraph indents and tab stops reproduce the horizontal positions',
 "A left-, right- or justified-aligned paragraph is written with the indents that place its left (resp. right) edge where it was relative to its container, to 0.1 pt (rows within the alignment thresholds keep these), with the first row indented or hanging as on the page, and never with a negative distance to the container; a centred paragraph is centred where it was; lines whose starts differ from the left edge in a paragraph without common alignment get a tab stop at their start and the tabs emitted before each line lead to that stop. Lines of a same physical row are never separated by a line break, and no break follows the last line. A row that leaves distinct free space (more than the configured share of the width) is followed by a break.",
 ['inputs'], "every horizontal arrangement of a bounded number of lines, horizontal and vertical text",
 "One alignment sample.",
 ['pdf2docx/text/TextBlock.py', 'pdf2docx/text/Lines.py', 'pdf2docx/common/docx.py', 'pdf2docx/common/Block.py'],
 [('alignment and spacing', 'text/TextBlock.py: parse_horizontal_spacing, _internal_alignment, _external_alignment, make_docx; text/Lines.py: parse_line_break, make_docx; common/docx.py: add_stop')],
 observe=['docx paragraph format and runs'])
prop('C17', 'Page size is kept and page margins never cut into the content',
 "The docx section of each page has the size of the (rotated) PDF page and its margins lie between 0 and one inch; the left margin equals the distance of the content up to one inch, the content box of the page never starts left of or above the margins, and never extends beyond the right or bottom margin by more than the rounding of 0.1 pt, as long as the content lies on the page. An empty page gets one-inch margins; the first page uses the document's existing section and every later page a new one, in order.",
 ['inputs', 'configurations'], "every page size and content box, and every margin factor in [0,1]",
 "Margins are not compared by any test.",
 ['pdf2docx/page/Page.py'],
 [('margins', 'page/Page.py: _cal_margin, working_bbox, make_docx')],
 observe=['section properties in the docx'])
prop('C18', 'Inferred borders of borderless tables never cut through text',
 "Borders inferred for tables without ruling lie inside the gap between the text they separate (up to 1 pt), whatever explicit strokes or shadings are nearby; a border is fixed at most once, and every border that shapes the table is between its boundary borders. Text of different columns always ends up on different sides of a border.",
 ['inputs'], "every arrangement of a bounded number of text lines, explicit strokes and shadings",
 "Two stream-table samples.",
 ['pdf2docx/table/Border.py', 'pdf2docx/table/TablesConstructor.py'],
 [('stream borders', 'table/Border.py; table/TablesConstructor.py: _outer_borders, _inner_borders, _stream_strokes')],
 observe=['strokes produced for a stream table'])
prop('C19', 'Drawn lines and rectangles become shapes at the drawn place',
 "Every axis-aligned straight line and every rectangle edge of a drawn path yields one stroke (open bent paths and other polygons count as vector graphics) with the same end points, width and colour, a filled path yields a fill of the same box and colour, a closed path includes its closing edge, and separate sub-paths stay separate. Thin fills become strokes along the same centre line with the fill's thickness; nothing else about their place changes.",
 ['inputs'], "every bounded sequence of path segments with arbitrary coordinates",
 "The sample drawings use a few regular rectangles.",
 ['pdf2docx/shape/Path.py', 'pdf2docx/shape/Paths.py', 'pdf2docx/shape/Shape.py'],
 [('path decomposition', 'shape/Path.py; shape/Shape.py: Stroke, Fill.to_stroke')],
 observe=['shape dicts and Stroke/Fill objects'])
prop('C20', 'Rotated pages are mapped into the page with the text direction kept',
 "For pages rotated by 0, 90, 180 or 270 degrees, text, images, drawings and links end up at the place where the page shows them: every box inside the un-rotated page maps into the visible page with its area and the distances between boxes kept. Left-to-right text on a page turned so that it reads bottom-to-top is recognised as vertical text, unrotated text as horizontal.",
 ['inputs'], "every page size, box position and rotation",
 "No sample page is rotated.",
 ['pdf2docx/common/Element.py', 'pdf2docx/text/Line.py', 'pdf2docx/page/RawPage.py', 'pdf2docx/shape/Shape.py'],
 [('rotation matrix', 'common/Element.py: set_rotation_matrix, __init__; text/Line.py: dir; page/RawPage.py: raw_dict')],
 observe=['bbox and text_direction of elements'])
prop('C21', 'Cleaning and classifying shapes loses no border, fill or link',
 "Cleaning removes only shapes off the page or smaller than the minimum size in both directions, and merges only shapes of equal colour that overlap beyond the threshold, so that every kept shape stays covered by a shape of its colour; hyperlinks are kept as they are. Every remaining non-link shape is offered as table border, cell shading or text style; strokes inside a text line are never offered as borders.",
 ['inputs'], "every arrangement of a bounded number of shapes and text lines",
 "Samples contain few overlapping shapes.",
 ['pdf2docx/shape/Shapes.py', 'pdf2docx/shape/Shape.py'],
 [('cleaning and classification', 'shape/Shapes.py: clean_up, detect_initial_categories; shape/Shape.py: semantic_type')],
 observe=['shapes after cleaning, table_strokes, table_fillings, text_highlights, text_underlines_strikes, hyperlinks'])
prop('C22', 'Every image is placed once, at its place, with its bytes',
 "Every location on the page of a recovered picture yields exactly one image of that picture with that location's box; images overlapping other content by more than 5 pt in both directions become floating images and are written once at their page position with their width and height, all others once inline with their width and height. No image is lost or duplicated, and the image bytes are unchanged.",
 ['inputs'], "every bounded set of image locations, recovered images and text positions",
 "Image samples contain one or two images each.",
 ['pdf2docx/page/RawPage.py', 'pdf2docx/page/Blocks.py', 'pdf2docx/image/ImageBlock.py', 'pdf2docx/image/Image.py', 'pdf2docx/common/docx.py'],
 [('image recovery and floating images', 'page/RawPage.py: _preprocess_images; page/Blocks.py: identify_floating_images, make_docx; image/*.py')],
 observe=['image blocks of the layout', 'docx picture calls'])
prop('C23', 'All text of a page reaches the docx exactly once',
 "For a page of horizontal or vertical text with drawn lines and fills, converting writes every non-blank character that lies on the page exactly once, characters of one line stay together in order unless a table border crosses the line, and paragraphs that are stacked on the page are written top to bottom (unless their source blocks interleave). Only a line that nearly coincides with its neighbour (beyond the overlap threshold) may be dropped.",
 ['inputs'], "every placement of a bounded number of text lines and strokes on a page, through the whole parse-and-write pipeline",
 "Sample documents fix the geometry; losing text needs particular alignments or overlaps.",
 ['pdf2docx/page/Page.py', 'pdf2docx/page/Layout.py', 'pdf2docx/page/Blocks.py', 'pdf2docx/table/TablesConstructor.py', 'pdf2docx/text/TextBlock.py'],
 [('whole pipeline', 'page/Page.py: parse, make_docx; page/Layout.py: parse')],
 observe=['runs written to the docx document'])
prop('C24', 'Stripping blanks removes only redundant blanks',
 "Cleaning a line removes only blanks at its two ends, leaves one blank where several were in its first or last span, never touches any other character or the order of characters, and shrinks the line's box to exactly the remaining characters.",
 ['inputs'], "every bounded sequence of blank and non-blank characters, spread over one or two spans",
 "Samples contain few lines with several leading or trailing blanks.",
 ['pdf2docx/text/TextSpan.py', 'pdf2docx/text/Spans.py', 'pdf2docx/text/Lines.py', 'pdf2docx/text/Line.py'],
 [('stripping', 'text/TextSpan.py: lstrip, rstrip; text/Spans.py: strip; text/Lines.py: strip')],
 observe=['text and bbox of the line'])
prop('C25', 'Box relations are symmetric and agree with geometry',
 "The relations used to arrange content depend only on the two boxes: alignment (same row or column band), being in the same row, and merging of overlapping boxes give the same answer whichever element asks; containing another box implies covering at least the requested share of its area; merging two boxes gives the smallest box around both.",
 ['inputs'], "all pairs of boxes and thresholds",
 "These predicates are reached only with sample coordinates, in one argument order.",
 ['pdf2docx/common/Element.py', 'pdf2docx/common/Collection.py'],
 [('box predicates', 'common/Element.py: contains, get_main_bbox, vertically_align_with, horizontally_align_with, in_same_row, union_bbox')],
 observe=['results of the predicates'])
prop('C26', 'Vector graphics are rendered to pictures that cover them',
 "Curved drawings on a page of any size and rotation are rendered to pictures that cover the drawn area and nothing beyond the drawings, show that part of the page without its text, and are placed where they were drawn. Drawings that do not touch get separate pictures; images and ruled tables are not rendered again.",
 ['inputs'], "every placement of a bounded number of drawings, images and tables, every page size and rotation",
 "One sample with vector graphics.",
 ['pdf2docx/image/ImagesExtractor.py'],
 [('contour detection and clipping', 'image/ImagesExtractor.py: extract_vector_graphics')],
 observe=['images in the docx'])
prop('C27', 'Image pixels, alpha and colour space survive recovery',
 "Pictures recovered from the PDF show the same pixels as the PDF viewer: no pixel is lost, soft masks of any size become transparency of the same level, CMYK images become the equivalent RGB, stencils are shown as on the page but without its text, and pictures turn with a rotated page. Exactly the images shown on the page are recovered, each with its box.",
 ['inputs'], "every sample value of small images and masks, every size of a mask relative to the image, every page rotation",
 "Two sample images; pixels are never compared.",
 ['pdf2docx/image/ImagesExtractor.py'],
 [('pixmap recovery', 'image/ImagesExtractor.py: _recover_pixmap')],
 observe=['image bytes in the docx'])
prop('C28', 'Tables drawn with any lines have cells that tile the grid and hold all its text',
 "Ruling lines may be incomplete, end inside a cell or enclose areas that are no rectangles, and tables may have no lines at all. The parsed table is a valid one all the same: every position of its grid belongs to exactly one rectangular cell, each row written fills the columns of the table, cells merged downwards continue in the rows below, extraction gives rows of one length, and every text of the page is written exactly once, text in a ruled table in the cell that covers its place. No page is lost because of the lines drawn on it.",
 ['inputs'], "every subset of the pieces of inner lines of a bounded grid, every end of lines within a table, every position of words in a table without lines",
 "Sample tables are complete; the lines of real tables are not.",
 ['pdf2docx/table/TableStructure.py', 'pdf2docx/table/TablesConstructor.py', 'pdf2docx/table/TableBlock.py', 'pdf2docx/table/Cell.py'],
 [('merging of cells', 'table/TableStructure.py: _check_merging_status, to_table_block'), ('inferred borders', 'table/TablesConstructor.py: stream_tables')],
 observe=['tables in the docx', 'extract_tables result'])
prop('C29', 'What is written for a page or a cell fits on that page, in that cell',
 "Pages of the docx correspond to pages of the PDF: each page is one section starting on a new page, and the heights written for it (spaces before and after paragraphs, rows with their exact line spacing, pictures, table rows, outer borders, the small paragraphs before, between and behind tables) add up to at most the height between its margins, up to rounding. The contents of a table cell add up to at most the height of its rows, which is exact, so that nothing is cut (one point is taken from the last row of a table at the end of a page). Heights are never negative or left to the renderer, two tables never follow each other without a paragraph between them, and a page or cell never ends with a table. The paragraph python-docx adds for a section break is not counted, and blocks of text without ruling that interleave with blocks beside them may take more height.",
 ['inputs'], "every vertical place of paragraphs, rows, pictures, ruled and nested tables and columns up to the very end of a page or cell",
 "Samples leave room at the end of their pages, and no test counts the pages of the docx.",
 ['pdf2docx/page/Blocks.py', 'pdf2docx/page/Page.py', 'pdf2docx/text/TextBlock.py', 'pdf2docx/table/TablesConstructor.py', 'pdf2docx/table/Row.py', 'pdf2docx/common/docx.py'],
 [('vertical spacing', 'page/Blocks.py: parse_spacing, make_docx'), ('page layout table', 'table/TablesConstructor.py: page_layout_table'), ('margins', 'page/Page.py: _cal_margin')],
 observe=['heights in the docx'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
