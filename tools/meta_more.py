p("C07", "The right article is retrieved for any title, redirects included",
  "For every title an article request asks the configured Wikipedia host for exactly this page (redirects followed) and hands out exactly the text and the titles of the answer. A page that does not exist, an answer that is no article or a failing server is reported as error and never yields an article, neither now nor at a later request; a useless answer that an aborted run left in the cache is replaced by a new request.",
  ["inputs", "histories"], "all titles (quotes, ampersands, percent signs, slashes, plus signs, Unicode), page texts, redirects and server failures in sequences of requests",
  "the tests download one article with a mocked client and never look at the requested URL for special characters, at redirects or at failures",
  ["src/wikipedia/wikipedia.go", "src/http/http.go"],
  [("URL of the article request and decoding of the answer", "src/wikipedia/wikipedia.go DownloadArticle")],
  "property-based testing against a simulated MediaWiki server (rapid)",
  "A small wiki behind the replaced transport decodes the request the way a server does, so wrong escaping yields the wrong page.",
  observe=["requests at the transport", "returned article", "cached files"])
p("C08", "Every image is fetched from the first wiki that has it, or reported missing",
  "For any list of images each one ends up in the image cache under its own name with exactly the content that the first of the configured image hosts knowing it serves, redirects of file names included, and it is requested only once. An image that no host has does not prevent the others from being downloaded, and any other failure is reported and leaves nothing cached.",
  ["inputs", "fault_sequences", "histories", "configurations"], "all file names, redirects, distributions of the images over the configured wikis, failing requests and repeated calls",
  "the tests download one or two fixed images with a mocked client; order of the hosts, redirects, escaping of names and failures in between are not combined",
  ["src/wikipedia/wikipedia.go", "src/http/http.go", "src/cache/cache.go"],
  [("loop over the hosts, redirect lookup, upload path from the MD5 of the name", "src/wikipedia/wikipedia.go DownloadImages / downloadImageUsingAllSources")],
  "stateful property-based testing against a model of requests and cached files",
  "Requests and cache are compared with a model after each call; file names contain no colon and an image redirects to the same name on every wiki.",
  observe=["requests at the transport", "files in the image cache"])
p("C09", "Rendering a formula gives the right cached files or an error",
  "For any formula the server is asked to check and render exactly this formula, and the returned files hold exactly what the server delivered for it (converted by the configured converter). A rendered formula is served from the cache without a request, a useless SVG file that an aborted run left in the cache is requested again, and a failure at any step (also an answer that is no SVG image) is reported, leaves no partial result behind, and does not influence later attempts.",
  ["inputs", "fault_sequences", "histories", "configurations"], "all formulas, all converter settings, failures at any step of any attempt",
  "the tests render one formula with mocked requests; failures at the single steps, repeated renderings and special characters are not covered",
  ["src/wikipedia/wikipedia.go", "src/http/http.go", "src/image/image.go"],
  [("check, SVG and PNG requests", "src/wikipedia/wikipedia.go RenderMath / getMathResource")],
  "stateful property-based testing against a simulated math API with injected failures",
  "The simulated API knows formulas by id only, so a wrong body or id shows up in the returned files.",
  observe=["requests at the transport", "returned files"])
p("C10", "Nested templates expand exactly as the wiki would expand them",
  "A text with templates nested to any depth, as arguments and repeated, becomes the text that direct evaluation by the wiki yields: every call is expanded with its own (expanded) arguments, text around it stays, no placeholder is left. Expansions are requested once per different call, and a failing expansion ends in an error; a useless answer that an aborted run left in the cache is replaced by a new request.",
  ["inputs", "fault_sequences"], "all trees of template calls up to depth three with results that keep, duplicate or drop arguments, and failing requests",
  "the tests evaluate a handful of fixed templates with a mocked service",
  ["src/parser/template.go", "src/parser/cleaner.go", "src/wikipedia/wikipedia.go"],
  [("inner templates first, placeholders for results", "src/parser/template.go evaluateTemplates")],
  "metamorphic/differential testing: evaluation through the tool against direct evaluation of the generated tree",
  "The server's expansion is a computable function; whitespace is not compared.",
  observe=["text after tokenizing", "requests at the transport"])
p("C11", "Configured conversion commands see the right file and decide the result",
  "For every downloaded image exactly the commands configured for its type run, with the placeholders replaced by the real file paths whatever characters these contain, and the file that ends up in the image cache (converted or processed) is what the command made of the downloaded content. With an empty command template the image is kept as downloaded, a failing command is reported and does not leave a file that looks finished.",
  ["inputs", "configurations", "fault_sequences"], "all file types, names, cache paths (with spaces), command templates and failing commands",
  "the tests compare the arguments of one or two fixed commands against a mock",
  ["src/image/image.go", "src/wikipedia/wikipedia.go", "src/util/executil.go"],
  [("placeholders of the command templates", "src/image/image.go"), ("choice by file type", "src/wikipedia/wikipedia.go")],
  "property-based testing with stub commands that record what they were applied to",
  "Real processes are started (stubs instead of ImageMagick); the result must carry the record of exactly the expected conversions.",
  observe=["files in the image cache", "records of the stub commands"])
p("C12", "SVG sizes become absolute only as configured, the rest of the file stays",
  "With the setting enabled, every downloaded SVG file with relative or missing sizes and a usable view box gets absolute sizes from that view box and nothing else of the drawing changes; with the setting disabled, or for a file that cannot be understood, the file stays byte for byte and no run fails because of it.",
  ["inputs", "configurations"], "all SVG root elements: units, missing attributes, view boxes with both separators, nested elements, declarations, broken files",
  "the tests check a few fixed SVG headers",
  ["src/image/svg.go", "src/image/image.go"],
  [("rewriting of width and height", "src/image")],
  "property-based testing against an independent reading of the SVG root element",
  "Before and after are compared element by element; files with both sizes absolute may be kept or set to the view box.",
  observe=["files in the image cache"])
p("C13", "Command line beats project file beats config file beats default, per setting",
  "For every setting the effective value is the one of the highest level that gives it (command line, project file, config file, default) and a setting given nowhere keeps its default. Relative paths mean what they mean in their place: relative to the config file, to the project file or to the directory the tool was started in.",
  ["configurations", "inputs"], "all subsets of all settings at all levels, relative and absolute paths, three different directories",
  "the tests load single hand-written files; the merge over three levels and the path rules per level are not covered for all settings",
  ["src/config/config.go", "src/config/project.go", "src/main.go"],
  [("merge of the levels", "src/config, src/main.go")],
  "model-based property testing of the built command line tool (effective configuration against a model of the precedence)",
  "Runs the real tool; values equal to a default that should override another value are a known finding.",
  observe=["effective configuration in the trace output of the tool"])
p("C14", "Invalid settings end the run before anything is requested or written",
  "When any level contains an invalid value, an impossible combination of output type and driver, an unknown or malformed file, the tool exits with an error before it requests an article or writes output. Valid settings are accepted.",
  ["configurations", "inputs"], "valid and invalid values for every setting at each level, missing and malformed files",
  "the tests check validation functions with single values, not that the tool applies them at every level before working",
  ["src/config/config.go", "src/main.go"],
  [("validation after the merge", "src/config/config.go AssertValidity")],
  "property-based testing of the built command line tool with an observing server",
  "Acceptance is observed as the first article request at a loopback server.",
  observe=["exit code", "requests at a loopback server", "output files"])
DOCF = ["src/parser", "src/generator/html.go"]
DOCW = "the tests feed single hand-written snippets into single parser or generator functions; how the elements act together in a whole document, in every context and nesting, is out of their reach"
DOCT = "property-based testing: generated document trees, rendered to wikitext, against the HTML expected from the tree"
DOCN = "The oracle is an independent renderer of the generated tree; HTML is compared after normalising what a browser does not show (white space between blocks, order of attributes); wikitext whose meaning is open or documented as unsupported is not generated."
DOCO = ["HTML file of the article", "image list of the tokenized article"]
def d(id, title, statement, text, mech, files=None, over=None):
    p(id, title, statement, over or ["inputs", "configurations"], text, DOCW, DOCF + (files or []), mech, DOCT, DOCN, observe=DOCO)
d("C15", "All text of an article arrives in the book, once and in its order",
  "The paragraphs of an article appear in the page as paragraphs with the same text in the same order: nothing is lost, doubled, joined or split, whatever characters the text consists of and whether it contains HTML. Only what is meant to disappear (comments, categories, ignored templates, magic words) is gone, without a trace and without affecting the text around it.",
  "all documents of paragraphs with special characters (brackets, bars, quotes, dollar and equal signs, Unicode), HTML elements, entities, comments at any position, categories and behaviour switches",
  [("cleaning of the wikitext", "src/parser/cleaner.go"), ("paragraph detection", "src/parser/tokenizer.go"), ("expansion of text", "src/generator/html.go")])
d("C16", "Every link shows its text and leads to its target, removed ones keep the text",
  "Every kind of link appears with exactly the text and target that the wikitext gives it, in each place a link can be, and internal links appear as their text. Links that the configuration or the format excludes (categories, other languages, forbidden prefixes) disappear as documented, and no link damages what stands around it.",
  "all links (internal with sections, labels and prefixes, external with and without text, other protocols) with any characters in all contexts, for all configured prefixes",
  [("internal and external links", "src/parser/link.go"), ("removal of unwanted links", "src/parser/cleaner.go")])
d("C17", "Expanded templates are rendered like text written in their place",
  "A document with template calls anywhere (within text, as whole blocks, with arguments that are wikitext again) yields the same page as the document with the results of the calls written in their place. Templates configured to be ignored vanish completely, those configured as trailing stand at the end of the article, others with similar names stay.",
  "all documents with template calls whose results are parts of documents, with generated lists of ignored and trailing templates",
  [("evaluation of templates before parsing", "src/parser/template.go, tokenizer.go"), ("ignored and trailing templates", "src/parser/cleaner.go")])
d("C18", "Headings keep their text, level and order, and only empty sections are dropped",
  "Every heading with content below it appears with its whole text at its level in the place it has in the article, whatever the text consists of. A section is removed exactly if neither it nor a section below it has any content.",
  "all documents of headings of all depths, with formatting, equal signs and references in them, with and without content, and headings written as bold lines",
  [("removal of empty sections", "src/parser/cleaner.go"), ("headings", "src/parser/heading.go")])
d("C19", "Lists keep all entries, their kind, nesting and order",
  "Every list appears with exactly its entries in their order, at the depth and of the kind (bullets, numbers, indentation, definition) that the markers in front of the lines say. Text before, after and between lists stays outside, and empty entries are dropped.",
  "all sequences of list lines with markers of all kinds up to depth three, jumps between kinds and depths, explicit numbers, in text, cells and template results",
  [("list parsing", "src/parser/list.go"), ("removal of empty entries", "src/parser/cleaner.go")])
d("C20", "Tables keep all rows, cells, spans and their content in place",
  "Every table appears with exactly its rows, its cells in their rows, headings as headings, the spans and alignment of each cell and the caption, wherever the table stands and however it is written. The content of each cell is rendered as it would be outside, nested tables and lists included.",
  "all tables with cells written on one or several lines, attributes in any quoting, captions, indentation and nested blocks",
  [("table parsing", "src/parser/table.go"), ("table expansion", "src/generator/html.go")])
d("C21", "Every reference shows the right number and stands once in the right list",
  "The references of an article are numbered per group, each usage shows the number of the reference it names, and each list of references contains exactly the references it has to, once, in order and with their whole content. It makes no difference where definition and usages stand, in which order, and how they are quoted.",
  "all documents with named, unnamed and grouped references, used before and after their definition, defined in text, headings, lists, cells, captions or the list of references itself, with one, several or no such lists",
  [("sorting and numbering of references", "src/parser/reference.go"), ("list of references", "src/generator/html.go")])
d("C22", "Bold and italic text covers exactly the text between its markers",
  "Text marked as bold, italic or both appears exactly so, in any nesting and in each place text can be, also over several lines of a paragraph, with other elements within and around it. No other text is affected, and no marker is left in the page.",
  "all balanced combinations of bold, italic and both, also closed in another order than opened, in all kinds of blocks",
  [("bold and italic markers", "src/parser/formatting.go")])
d("C23", "Images appear where they belong, in their size, with their caption",
  "Every image, gallery and image map of supported media types appears at its place with the right file, size, position and caption, and its file is among those the article asks to be downloaded. Media types configured as ignored disappear together with their caption, without affecting anything else.",
  "all images with any order of parameters, sizes, formatted captions, in text, cells, lists and templates, galleries, image maps, file names with any characters, configured ignored types and parameters",
  [("images, galleries, image maps", "src/parser/image.go"), ("removal of ignored media", "src/parser/cleaner.go")])
d("C24", "Formulas and nowiki text are taken literally, whatever they contain",
  "The content of each formula reaches the math service unchanged and the picture it returns appears at that place with its size, and the content of a nowiki element appears as the literal text. Nothing in such contents is interpreted as wikitext, and nothing around it is affected.",
  "all formulas and nowiki contents built of fragments of wikitext (links, templates, tables, quotes, brackets, tags) in all contexts",
  [("nowiki and math elements", "src/parser/nowiki.go, math.go"), ("template evaluation and cleaning skip them", "src/parser/template.go, cleaner.go")])
d("C25", "Any mix of nested elements renders as the sum of its parts, every time",
  "An article in which all kinds of elements are combined and nested renders to exactly the elements it consists of, in their nesting and order, and no internal marker ever shows. Rendering the same article again gives the same page.",
  "all document trees of up to ten blocks with every kind of element within every other one that the wiki allows",
  [("tokenizer", "src/parser/tokenizer.go"), ("expansion of tokens", "src/generator/html.go")])
p("C26", "No article can crash or hang the run, whatever its wikitext looks like",
  "Any wikitext, however broken, and any template result gives a complete page in bounded time: no crash, no endless processing, no failing run because of something that is not closed. The page keeps what stands before the broken part, shows no internals of the tool, asks for every image it shows, and is the same each time.",
  ["inputs"], "all sequences of wikitext fragments and all damaged versions of generated documents, with all kinds of template results, also long and repetitive ones",
  "the tests use well-formed snippets; the space of damaged input and the cost of pathological input cannot be sampled by hand",
  DOCF, [("matching of opening and closing elements", "src/parser/util.go, link.go, image.go, reference.go, table.go"), ("search for the combination of bold and italic", "src/parser/formatting.go"), ("fixpoint iteration", "src/parser/tokenizer.go")],
  "structure-aware fuzzing: grammar fragments and mutated generated documents, with a CPU budget per case",
  "Up to 40 s CPU count as bounded for documents of a few kB (elements that are never closed cost quadratic time); tags completed by something vanishing inside them are not generated.",
  observe=DOCO)
d("C27", "Something not closed in one paragraph leaves all others as they are",
  "A paragraph with an element that is opened but not closed, or closed but not opened, keeps its text, and all other blocks of the article render exactly as without it. This does not hold only for what the wiki itself extends to the end of the article (comments, tables, references, nowiki and formulas).",
  "all documents with paragraphs containing any of the opening or closing markers at any place between all kinds of blocks",
  [("scope of formatting, links, images, templates", "src/parser/formatting.go, link.go, image.go, template.go, reference.go")])
BOOKF = ["src/main.go", "src/http/http.go", "src/wikipedia/wikipedia.go", "src/image/image.go", "src/cache/cache.go", "src/generator/html.go", "src/generator/epub.go"]
BOOKW = "the tests of the packages replace everything around one function, and the integration tests build a few fixed books with one worker count against a filled cache; the product of schedules, failures and cache states of a whole run is not reached"
BOOKN = "The real binary runs against a scripted TLS server and recording stand-ins for pandoc and the image tools; the book is what the pandoc stand-in receives, compared with the generated articles rendered by the independent oracle; the scheduler of the Go runtime is perturbed by answer delays, not controlled."
BOOKO = ["exit code and output of the binary", "arguments and files given to pandoc", "requests at the server", "cache directory"]
def b(id, title, statement, over, text, mech, technique, level="exploration", state=None, files=None):
    p(id, title, statement, over, text, BOOKW, files or BOOKF, mech, technique, BOOKN, level=level, observe=BOOKO, state=state or [])
b("C28", "A book contains all its articles complete and in order for any schedule",
  "For any number of workers and any order in which answers arrive, the book consists of exactly the articles of the project in their order, each complete with all of its images, also when articles are listed twice or share images, templates and formulas. No resource is stored damaged or shown in the place of another, and the run ends.",
  ["schedules", "inputs", "configurations"], "all books of up to six generated articles with shared and own resources, any number of workers, any order and delay of the answers, all image processing settings",
  [("workers and collection of the results", "src/main.go processing of articles"), ("shared downloads and conversions", "src/http/http.go, src/image/image.go")],
  "property-based testing of whole runs: generated books and answer schedules against the generated articles as oracle")
b("C29", "A failing run is reported as failed and leaves no book, the next one is right",
  "When any request of a run is answered with an error, cut off or with garbage, or an external tool fails, the run exits with an error, does not report success, and does not leave a new or changed output file. A following run without failures yields the right book with all images.",
  ["fault_sequences", "histories"], "all requests and tool calls of generated books as failing step, in any of several ways, for any number of workers",
  [("error handling of workers", "src/main.go"), ("failed downloads, conversions and pandoc runs", "src/http/http.go, src/image/image.go, src/generator/epub.go")],
  "fault injection into whole runs over generated books, with the generated articles as oracle for the following run", level="fault_enumeration")
b("C30", "A run from the cache gives the same book, for any part of the cache missing",
  "A second run with a complete and fresh cache gives the same book without a single request. After any part of the cache has been removed or become too old, the run gives the right book with the current contents and asks for exactly what is missing or too old.",
  ["histories", "inputs"], "all histories of runs, removals of any cached files and ageing with changed contents on the server",
  [("cache lookups of all kinds of resources", "src/http/http.go, src/cache/cache.go"), ("images derived from other images", "src/image/image.go")],
  "stateful property-based testing of sequences of whole runs (metamorphic: cached against fresh)", state=["cache directory between the runs"])
b("C31", "A run killed at any moment does not spoil the following runs",
  "Wherever a run is killed, while requesting, while processing an image or while writing, the next run with the same cache yields the right and complete book. No half-written or half-processed file of the killed run is used.",
  ["crash_points", "histories"], "kills at every request, within every external tool call and at random times of generated books, several in a row",
  [("atomic cache writes", "src/cache/cache.go"), ("marker of images that are being processed", "src/image/image.go")],
  "crash injection into whole runs: SIGKILL at generated points, then an undisturbed run against the oracle", level="fault_enumeration", state=["cache directory after the kill"])
p("C32", "The EPUB contains the whole book with its metadata, style and pictures",
  "The EPUB file written by either driver contains the text of all articles in order, each picture in its place with its content, the configured style sheet, fonts and cover, the metadata of the project and a table of contents of the configured depth in which the headings lead to their places. This holds wherever the files of the project lie and whatever characters the texts consist of.",
  ["inputs", "configurations"], "all books of generated articles with generated metadata, depth of the table of contents, style, cover, fonts and places of the files, as EPUB 2 and EPUB 3 by pandoc and EPUB 3 by the internal driver",
  "the integration tests compare a few fixed HTML files and do not look into EPUB files, as those depend on the version of pandoc",
  ["src/generator/epub.go", "src/generator/html.go", "src/main.go", "src/config/project.go"],
  [("arguments of pandoc", "src/generator/epub.go"), ("internal EPUB driver", "src/generator/epub.go GenerateEpubWithGoLibrary")],
  "property-based testing: generated books are read back from the EPUB and compared with the generated articles",
  "Uses the real pandoc 3.1.3 for the pandoc driver; text is compared without white space, styling by the presence of the style sheet.",
  observe=["content of the EPUB file", "exit code and output of the binary"])
p("C33", "Statistics count every element of every article of the book exactly",
  "The statistics of a book count the links, images, formulas, references, words and characters of all of its articles as often as they appear in the book, and estimate the reading time from the words and the language. Links to articles that are not part of the book are listed completely and the most frequent ones are ranked, equally for each run on the same articles and in both formats.",
  ["inputs", "configurations"], "all books of generated articles with links to each other, listed repeatedly or not, for all languages and commands",
  "the tests count single tokens and merge two small hand-made statistics files; whole articles and the order of ties are not covered",
  ["src/generator/stats.go", "src/main.go"],
  [("counting of tokens", "src/generator/stats.go StatsGenerator"), ("sum and ranking", "src/generator/stats.go GenerateCombinedStats")],
  "property-based testing of whole runs: statistics against counts taken from the generated document trees",
  "Numbers are exact except words and characters, which are exact for single lines and otherwise bounded by what counts as text (nowiki, HTML of the wikitext, white space).",
  observe=["the statistics files", "exit code and output of the binary"])
p("C34", "The book is written where the user wants it, and nothing else is touched",
  "The output file is the one given on the command line, otherwise the one of the project file, otherwise the default of the output type, each relative to the place the user expects, and a given directory receives the file of the default name. Apart from it, needed new directories and the cache, no file is created, changed or removed, and a path that cannot be written ends the run with an error before anything changes.",
  ["inputs", "configurations"], "all combinations of command, output type, driver, place of the project file and output paths (relative, absolute, new, existing, directory, impossible) with special characters",
  "the tests do not call main; the integration tests always use the same kind of path",
  ["src/main.go", "src/config/project.go", "src/util/files.go", "src/generator/epub.go", "src/generator/stats.go"],
  [("choice of the output file", "src/main.go generateProjectEbook, ensurePathsAndClearTempDir"), ("paths made absolute before the working directory changes", "src/main.go initialize")],
  "property-based testing of whole runs with a comparison of the whole directory tree before and after",
  "Statistics with another file extension than the type's are left open (the code then uses the default name), as are links in paths.",
  observe=["directory tree around the working and project directory", "exit code and output of the binary", "arguments of pandoc"])
p("C35", "Articles processed at the same time do not get in each other's way",
  "While several workers process the articles of a book, nothing that one of them changes in memory is read or changed by another one without synchronisation, whatever the articles share and whatever happens to them. Each run with several workers ends with the same complete book, or the same statistics, as if the articles had been processed one after the other.",
  ["schedules", "histories"], "all books of up to seven generated articles with two to eight workers, any delay of the answers, new, complete, incomplete and outdated caches, failing requests and conversions, books and statistics",
  BOOKW, BOOKF + ["src/parser/tokenizer.go", "src/image/svg.go"],
  [("workers and their results", "src/main.go generateBookFromArticles"), ("services shared by all workers", "src/wikipedia/wikipedia.go, src/http/http.go, src/cache/cache.go")],
  "property-based testing of whole runs of the tool built with the race detector: generated books, caches, faults and answer schedules, oracles: no conflicting access and the generated articles",
  "A conflicting access is reported when both accesses happen in a run, however far apart they are, but only on the paths the generated articles take. The unprotected counter of messages within the logging library is ignored. Where the race detector does not work, the books alone decide.",
  observe=BOOKO + ["reports of the race detector"])
p("C36", "Long articles render as completely as short ones, in reasonable time",
  "An article of any length, with hundreds of sections, references, formulas, images and table rows, renders to exactly the elements it consists of, like a short one. The time needed stays in proportion, so that articles of the size of the longest ones of Wikipedia are finished within seconds.",
  ["inputs"], "all documents of up to 800 blocks, or with tables, lists and paragraphs of up to 2000 rows, entries or lines, with every kind of element within every other one",
  "the tests use snippets of a few lines; counters with several digits and the cost of long articles are not reached",
  DOCF, [("numbering and replacement of tokens", "src/parser/tokenizer.go, src/generator/expand.go"), ("fixpoint iteration", "src/parser/tokenizer.go"), ("numbering of references", "src/parser/reference.go")],
  "grammar-based property testing with large documents and a CPU budget per case, against an independent oracle",
  "Up to about 130 kB of wikitext, for which a minute of CPU time counts as reasonable (it takes about a second).",
  observe=DOCO)
