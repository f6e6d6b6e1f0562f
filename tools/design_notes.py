NOTES = {
'C01': 'Page selection: `Converter.parse/convert/extract_tables/__getitem__` and the command line (`main.PDF2DOCX`) run on a stand-in document of symbolic length with symbolic start, end, pages and base; the oracle is the slice rule written down independently, over the pages reported as parsed and written. 2 s.',
'C02': 'The real multi-processing conversion (workers run in turn in one process, `Pool` and `cpu_count` replaced) on documents of symbolic length, selection, process count; oracle: the docx of the sequential conversion. 30 s.',
'C03': 'Conversions with a symbolic fault schedule (page, stage, exception type); oracle: the pages whose parsing does not fail are there completely and in order. 13 s.',
'C04': 'Conversion with a symbolic file name (characters are symbolic, `symx/symname.py`) and file-system stand-ins that only record; oracle: nothing is written to or removed at the source. 18 s.',
'C05': 'Pages with symbolic geometry (`checks/samples.py`: text, vertical text, styles, ruled and nested tables, stream tables, images, columns) are stored, taken through JSON, restored into a new page (twice) and written; everything read from both docx files and the extracted tables must agree. Also after pages of other rotations, and through JSON files with any page selection. 200 s.',
'C06': 'The same pages are parsed, written, parsed again (after being parsed with other settings), written; converters with any earlier call against fresh ones. 220 s.',
'C07': 'Whole page parse and docx writing of lines with a highlight, stroke or link area anywhere, also over text in ruled and unruled tables and beyond them; the oracle computes for each character how much the area covers and compares with the run properties read from the XML. 100 s.',
'C08': 'Whole pipeline with symbolic flag word, size, colours, font names; oracle: run properties read from the XML. 40 s.',
'C09': '`rgb_value`, `rgb_component`, `hexadecimal colours` written by docx helpers with symbolic components; oracle: exact rational channel values. 10 s.',
'C10': '`group`, `group_by_connectivity` (rectangle sweep) and `graph_bfs` on symbolic boxes and tolerances; oracle: connected components of the pairwise relation computed with the same symbolic boxes. 30 s.',
'C13': 'Whole pipeline on ruled tables with text anywhere, also two tables with overlapping boxes; oracle: the share of each character in each cell. 35 s.',
'C14': 'Sort, join, split of real `Lines`/`Blocks`; oracle: permutation, row relation. 6 s.',
'C16': 'Whole pipeline, in pages and ruled cells, horizontal and vertical text; the oracle lays out the written paragraphs (indents, first line, tab stops, tabs, breaks, alignment, nested cells) and compares starts and ends of all lines with the page. 300 s.',
'C17': 'Whole pipeline; oracle: section properties in the docx against page size and content. 12 s.',
'C19': '`Paths`/`Page.raw_dict` with symbolic segments; oracle: the drawn edges. 5 s.',
'C20': 'Whole pipeline on pages rotated by 0/90/180/270 degrees, with text, drawings, links and images in the coordinates PyMuPDF 1.23.7 uses for each; oracle: rotation written down independently. 2 s.',
'C21': 'Cleaning/classification of a page with shapes of any place, size, colour; oracle: pairwise merging rule. 65 s.',
'C22': 'Whole pipeline with images anywhere; oracle: pictures (bytes, size, position, inline or floating) in the docx. 200 s.',
'C23': 'Whole pipeline with lines, strokes, fills anywhere; oracle: the text of the docx. 190 s.',
'C24': 'Whole pipeline and `strip` methods with every sequence of blank/non-blank characters. 2 s.',
'C25': 'Relations of `Element`/`Line` with symbolic boxes. 4 s.',
}
NOTES.update({
'C18': 'Stream tables of symbolic geometry through the whole page parse, with explicit strokes and shadings nearby; oracle: the text boxes on either side of every inferred border. 45 s.',
'C26': '`ImagesExtractor`, `RawPage` on pages with models of `fitz.Pixmap`, page rendering and OpenCV contours (`checks/pixels.py`) whose boxes are symbolic; oracle: the boxes of the drawings. 3 s.',
'C27': '`ImagesExtractor` on images with symbolic samples, with a model of `fitz.Pixmap`; oracle: each pixel of the image and its mask. 2 s.',
'C28': 'Whole pipeline on tables drawn with any subset of the pieces of their inner lines (2 x 2, 2 x 3; thorough 3 x 3), lines that end anywhere, and words anywhere without lines; oracle: the docx table must tile its grid and hold each word where it is drawn. 60 s.',
'C29': 'Whole pipeline with text, pictures, ruled, nested and unruled tables at the end of pages and cells; oracle: the sum of all heights written against the height between the margins and the height of the cells. 5 s.',
})
CAUGHT = {k: 'yes (missed at first; the check was extended)' for k in (
    'C02-segments', 'C03-half-parsed', 'C04-layout-file', 'C05-black-shading', 'C11-side-colours', 'C12-nested-stream', 'C23-release', 'C27-mask-order')}
