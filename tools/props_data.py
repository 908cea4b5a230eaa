"""The properties, as data for props.py."""


def P(id, title, statement, over, text, why, files, mech, observe=None,
      state=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why,
         'anchors': {'files': files,
                     'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe:
        d['anchors']['observe_at'] = observe
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w}
                                 for n, m, w in state]
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    return d


NOT_APPLICABLE = {}
NOTES = {'': 'Every transition of the bounded model is checked in the code, '
             'and every step of seeded random behaviours must be a step of '
             'the specification. Beyond those bounds this is exploration; it '
             'trusts TLC, the driver and lxml/tinycss2/Python.'}

PROPS = [
P('D01', 'The document tree stays one consistent tree',
  'After any sequence of insertions, moves, replacements and removals '
  'through elements, comments, processing instructions and documents, every '
  'node has at most one place, and child lists, parent, sibling, first/last '
  'child, element-only navigation, counts and document-order iteration all '
  'describe the same tree. That tree, including where text before, between '
  'and after nodes stands, is the one the sequence of operations prescribes: '
  'a node goes exactly where it was asked to go, in argument order, leaving '
  'its old place, and nothing else moves.',
  ['histories', 'inputs'],
  'every sequence of tree operations over every choice of nodes, reference '
  'nodes, positions and text arguments',
  'the tests apply one operation at a time to fresh trees; the positions that '
  'matter (moving a node within its own parent, a reference node that is the '
  'moved node, text before and after the touched nodes) only arise from '
  'combinations',
  ['svgpy/dom.py', 'svgpy/window.py'],
  [('Element tree operations', 'svgpy/dom.py Element.append .. replace_child'),
   ('Document tree operations', 'svgpy/window.py Document.append .. '
    'replace_child'),
   ('insert before', 'svgpy/dom.py node_insert_before')],
  ['child_nodes', 'parent_node', 'next_sibling', 'previous_sibling', 'text',
   'tail', 'Document.iter']),
P('D02', 'A refused tree operation changes nothing',
  'When a tree operation is refused (a node that cannot have children, an '
  'object that cannot be inserted, a reference node that is not a child, a '
  'node inserted into itself or its descendants, a second document element), '
  'it reports the documented error and the trees, the texts and the owner '
  'documents of all nodes are exactly what they were before.',
  ['histories', 'inputs'],
  'every refused operation in every reachable tree',
  'the tests assert that an exception is raised, hardly ever that nothing '
  'changed',
  ['svgpy/dom.py', 'svgpy/window.py'],
  [('validity checks', 'svgpy/dom.py Node.ensure_pre_insertion_validity, '
    'ensure_pre_remove_validity')],
  ['raised exceptions', 'child_nodes', 'owner_document', 'text', 'tail']),
P('D03', 'Owner documents follow the nodes',
  'A node placed in a document belongs to that document, together with all '
  'its descendants, whichever operation put it there; removing it from its '
  'parent leaves its owner document, and nothing else changes the owner of a '
  'node.',
  ['histories', 'inputs'],
  'every sequence of tree operations across documents and document-less nodes',
  'the tests check the owner after single insertions of fresh nodes; subtree '
  'adoption and moves between documents depend on the history',
  ['svgpy/dom.py', 'svgpy/window.py'],
  [('adoption', 'svgpy/dom.py attach_document / owner_document')],
  ['owner_document']),
P('D04', 'Attributes, the attribute map and Attr objects agree',
  'Whatever mix of calls changes the attributes of elements (get/set/remove/'
  'toggle by name or namespace, the attribute map, Attr objects and their '
  'values), all views show one ordered set of attributes: an attribute has '
  'one Attr object that stays the same while the attribute exists, belongs '
  'to exactly that element and reads and writes its value; replacing or '
  'removing it detaches the object, which keeps the last value; an Attr '
  'object in use by another element is refused and nothing changes; a '
  'missing name is a KeyError where one is documented.',
  ['histories', 'inputs'],
  'every sequence of attribute operations through every view over several '
  'elements and Attr objects',
  'the tests check one view after one call; stale Attr objects and disagreeing '
  'views only appear after several calls through different views',
  ['svgpy/dom.py'],
  [('Attr', 'svgpy/dom.py Attr'), ('NamedNodeMap', 'svgpy/dom.py NamedNodeMap'),
   ('Element attribute methods', 'svgpy/dom.py Element.get_attribute ..')],
  ['attributes', 'get_attribute*', 'Attr.value', 'Attr.owner_element']),
P('D05', 'The class token list is an ordered set over the attribute',
  'class_list always shows the distinct tokens of the class attribute in '
  'order of first appearance; add, remove, toggle (with and without force), '
  'replace, insert, deletion and assignment change exactly the named tokens, '
  'write the result back to the attribute, return the documented answers, '
  'and refuse empty tokens or tokens with white space (ValueError) or '
  'positions out of range (IndexError) without changing anything.',
  ['histories', 'inputs'],
  'every sequence of token operations mixed with every way to change the '
  'attribute underneath',
  'the tests run fixed sequences; the list must agree with an attribute that '
  'may hold duplicates and odd white space or be changed behind its back',
  ['svgpy/dom.py'],
  [('DOMTokenList', 'svgpy/dom.py DOMTokenList'),
   ('class_list', 'svgpy/dom.py Element.class_list')],
  ['class_list', 'get_attribute("class")']),
P('D06', 'The dataset mirrors the data-* attributes',
  'dataset shows exactly the data-* attributes (no uppercase letters in the '
  'name) in order, under the HTML name conversion, which is a bijection: '
  'setting, reading, testing and deleting a key act on the attribute of the '
  'converted name and on nothing else; keys with a hyphen before a lowercase '
  'letter are refused with ValueError, absent keys with KeyError, and '
  'refusals change nothing.',
  ['histories', 'inputs'],
  'every key and attribute name, in every sequence of dataset and attribute '
  'operations',
  'the tests convert a handful of names',
  ['svgpy/dom.py'],
  [('DOMStringMap', 'svgpy/dom.py DOMStringMap')],
  ['dataset', 'attributes']),
P('G16', 'Matrices compose, invert and transform as 4x4 matrices',
  'Translation, scaling about an origin, rotation (about axes, a vector, an '
  'axis-angle), skewing, flipping, multiplication and inversion of DOMMatrix '
  'yield exactly the matrix the product of the defining matrices yields, '
  'post-multiplied in call order; the read-only variants and the functional '
  'operations leave their operands unchanged and the *_self operations '
  'change and return only their own object; is2d stays true exactly while '
  'only 2D operations were applied, components and their aliases agree, '
  'points are mapped accordingly, and inconsistent or incomplete construction '
  'is a TypeError/ValueError.',
  ['histories', 'inputs'],
  'every sequence of matrix operations with any rational arguments',
  'the tests multiply a few matrices; the 3D/2D case distinctions, argument '
  'defaults and the aliasing of operands depend on the combination',
  ['svgpy/geometry/matrix.py'],
  [('DOMMatrix', 'svgpy/geometry/matrix.py')],
  ['m11..m44', 'a..f', 'is2d', 'transform_point', 'tostring']),
P('G17', 'Rectangles: union, intersection, containment, transformation',
  'For every pair of rectangles the union is the smallest rectangle that '
  'contains both (an undefined rectangle being neutral), the intersection of '
  'overlapping rectangles is their common part, containment is containment '
  'of all corners, transformation by a matrix is the bounding box of the '
  'mapped corners, edges (left, top, right, bottom) follow the sign of '
  'width and height, normalising swaps negative extents, and only *_self '
  'operations change their object.',
  ['histories', 'inputs'],
  'every pair of rectangles, negative and zero extents included, and every '
  'sequence of operations on them',
  'the tests combine a few rectangles, mostly with positive extents and one '
  'relative position each',
  ['svgpy/geometry/rect.py'],
  [('DOMRect', 'svgpy/geometry/rect.py')],
  ['x, y, width, height', 'left, top, right, bottom', 'contains', 'isempty',
   'isvalid']),
P('G18', 'Transform lists behave as lists of live transform functions',
  'A transform object has the type, values (defaults filled in), angle, text '
  'and matrix of the function last set; a wrong number of values, a 3D '
  'matrix or an unknown type is refused without changing it. Transform lists '
  'hold exactly the objects that were put into them, in the order the '
  'sequence operations prescribe; a list matrix is the product of the item '
  'matrices in list order, consolidating keeps it, changing a returned '
  'matrix changes nothing, refused items leave the list as it was, and a '
  'list written to the transform attribute or parsed from any notation of '
  'it is the same sequence of functions.',
  ['histories', 'inputs'],
  'every sequence of operations on transform objects shared between lists, '
  'and every notation of a transform list',
  'the tests parse and combine a few fixed lists; sharing, positions out of '
  'range, repeated items and notations multiply',
  ['svgpy/transform.py', 'svgpy/base.py', 'svgpy/formatter.py'],
  [('SVGTransform', 'svgpy/transform.py'),
   ('SVGTransformList', 'svgpy/transform.py'),
   ('number formatting', 'svgpy/formatter.py'),
   ('transform property', 'svgpy/base.py SVGGraphicsElement.transform')],
  ['type', 'values', 'angle', 'matrix', 'tostring', 'transform attribute']),
P('D07', 'Lookups return exactly the matching elements, in document order',
  'At every moment, looking elements up by id, class names, tag name, '
  'namespace and local name or CSS selector, from the document or from an '
  'element, returns exactly the elements of that subtree that match now (for '
  'an id: the first), once each and in document order; class names and ids '
  'are compared literally and whole. The owner SVG element, the viewport '
  'element and the nearest and farthest variants name the ancestors they '
  'are defined as. Lookups change nothing.',
  ['histories', 'inputs'],
  'every tree, attribute values, name and selector, after every sequence of '
  'moves, removals and attribute changes',
  'the tests look up ordinary names in fixed documents; names with special '
  'characters, nested svg elements, scopes and elements that moved multiply',
  ['svgpy/utils.py', 'svgpy/dom.py', 'svgpy/element.py', 'svgpy/window.py',
   'svgpy/base.py'],
  [('lookup functions', 'svgpy/utils.py get_element_by_id .. '
    'get_elements_by_tag_name_ns'),
   ('selectors', 'svgpy/dom.py Element.query_selector_all'),
   ('owner and viewport elements', 'svgpy/base.py SVGElement')],
  ['get_element_by_id', 'get_elements_by_class_name',
   'get_elements_by_tag_name', 'get_elements_by_tag_name_ns',
   'get_elements_by_local_name', 'query_selector', 'query_selector_all',
   'owner_svg_element', 'viewport_element']),
P('P19', 'Path data text and path segments say the same',
  'Parsing any notation of path data (repeated and implicit commands, '
  'omitted separators, signs, exponents, arc flags written together) gives '
  'exactly the segments it denotes; serializing any list of segments gives '
  'path data that denotes these segments, so that a round trip through text '
  'or through the d attribute of a path element changes nothing. A segment '
  'set through its setters is the segment made by its constructor and '
  'reports the end point it has.',
  ['inputs', 'histories'],
  'every list of segments of all kinds and every notation of it',
  'the grammar leaves separators, signs and repeated commands free; the '
  'tests parse a few notations of a few paths',
  ['svgpy/path.py', 'svgpy/formatter.py', 'svgpy/element.py',
   'svgpy/base.py'],
  [('parser and serializer', 'svgpy/path.py PathParser'),
   ('segments', 'svgpy/path.py SVGPathSegment'),
   ('number formatting', 'svgpy/formatter.py'),
   ('path data of elements', 'svgpy/base.py SVGPathData')],
  ['PathParser.parse', 'PathParser.tostring', 'get_path_data',
   'set_path_data', 'SVGPathSegment.end']),
P('P20', 'Normalized path data draws what the path data draws',
  'Normalizing yields only absolute M, L, C and Z segments that draw the same '
  'curve in the same direction: relative coordinates, bearings, implicit '
  'linetos, horizontal and vertical lines, reflected control points of '
  'smooth curves (only after curves of their kind), quadratic curves and '
  'elliptical arcs (scaled up when too small, lines without radius, nothing '
  'without distance) all keep their geometry; normalizing again changes '
  'nothing and the path data passed in is left alone.',
  ['inputs', 'histories'],
  'every sequence of segments of all kinds',
  'what a segment draws depends on the segments before it; the tests check '
  'single segments after a moveto',
  ['svgpy/path.py', 'svgpy/element.py'],
  [('normalization', 'svgpy/path.py PathParser.normalize, '
    'PathSegment.normalize, PathSegment.toabsolute'),
   ('centre of an arc', 'svgpy/path.py PathSegment.get_center_of_arc'),
   ('normalized path data of elements',
    'svgpy/element.py SVGPathElement.get_path_data')],
  ['PathParser.normalize', 'get_path_data(settings)']),
P('P21', 'Transformed paths, their boxes and lengths are those of the curve',
  'Transforming path data by a matrix maps the drawn curve by that matrix, '
  'arcs included (and so commutes with normalizing); the bounding box '
  'touches the drawn curve on all four sides and contains it; the total '
  'length is the length of the drawn curve, closing lines and implicit '
  'linetos included and movetos excluded. None of them changes the path '
  'data passed in.',
  ['inputs', 'histories'],
  'every sequence of segments and every affine matrix, singular ones '
  'included',
  'the tests compare a few paths with numbers taken from browsers',
  ['svgpy/path.py', 'svgpy/element.py', 'svgpy/geometry/rect.py'],
  [('transformation', 'svgpy/path.py PathParser.transform'),
   ('bounding box', 'svgpy/path.py PathParser.get_bbox, CubicBezierCurve'),
   ('length', 'svgpy/path.py PathParser.get_total_length, Ellipse')],
  ['PathParser.transform', 'PathParser.get_bbox',
   'PathParser.get_total_length', 'get_total_length']),
P('L22', 'A length is its number of units, whatever it is converted to',
  'A length keeps its value: conversion to any unit and back, comparison, '
  'sums, differences, products, quotients, remainders and negation all '
  'follow the size of the length in user units, where absolute units have '
  'their fixed ratios, em, ex, ch refer to the font of the element, rem to '
  'the font of the root, percentages to width, height or diagonal of the '
  'nearest viewport by the direction of the length, and vw, vh, vmin, vmax '
  'to the window. Results have the unit of the left operand and the element '
  'it belongs to; operands are left alone; what is refused changes nothing.',
  ['inputs', 'histories'],
  'every pair of units, directions and contexts, with every history of '
  'attribute changes and resizes before the length is read',
  'the size of a length depends on two operands, their units, directions and '
  'elements; the tests take one of these at a time',
  ['svgpy/base.py', 'svgpy/element.py', 'svgpy/style.py', 'svgpy/core.py'],
  [('lengths', 'SVGLength and its arithmetic, conversion and comparison'),
   ('viewport size', 'get_viewport_size and viewport elements'),
   ('fonts', 'Font sizes of elements')],
  ['SVGLength', 'SVGLength.convert', 'SVGLength.value', 'SVGLength.new_length',
   'comparison and arithmetic operators']),
P('V23', 'Viewports map user space to the screen as viewBox and '
         'preserveAspectRatio say',
  'The view box, aspect ratio, viewport size, viewport transformation matrix '
  'and CTM of an element are functions of the current attributes of the '
  'element and its ancestors and of the window: the transformation of a '
  'viewport scales its viewBox to its size uniformly or not, meets or '
  'slices, aligns the rest, and translates to x and y; the CTM is the '
  'product, in order, of the transforms and viewport transformations from '
  'the nearest viewport (the screen CTM: from the outermost) to the element. '
  'A viewBox or aspect ratio in error is as if it were not given.',
  ['inputs', 'histories'],
  'every tree of nested viewports, groups and transforms and every history '
  'of changes of their attributes and of the window',
  'matrices depend on all ancestors at once; the tests use one viewport with '
  'a few aspect ratios',
  ['svgpy/element.py', 'svgpy/base.py', 'svgpy/core.py'],
  [('viewBox and preserveAspectRatio', 'svgpy/base.py'),
   ('transformation of a viewport', 'get_viewport_transformation_matrix'),
   ('CTM', 'get_ctm, get_screen_ctm')],
  ['view_box', 'get_view_box', 'preserve_aspect_ratio', 'get_viewport_size',
   'get_viewport_transformation_matrix', 'get_ctm', 'get_screen_ctm']),
P('S24', 'Basic shapes, groups and use elements draw what their attributes '
         'say',
  'The equivalent path of rect (corner radii defaulted to each other and '
  'clamped to half of the sides), circle, ellipse, line, polyline and '
  'polygon, its bounding box and its length are those of the shape its '
  'current attributes describe in whatever units they are given; a box of a '
  'group is the union of the boxes of what it draws under their transforms; '
  'a use element draws the referenced element translated by x and y. Shapes '
  'with no extent draw nothing, and looking changes nothing.',
  ['inputs', 'histories'],
  'every shape with every combination of attributes given, omitted, negative '
  'or in error, in every tree of groups, uses and transforms',
  'defaults and clamping interact with units, transforms and references; the '
  'tests check a few shapes with all attributes given',
  ['svgpy/element.py', 'svgpy/base.py', 'svgpy/geometry/rect.py',
   'svgpy/path.py'],
  [('shapes', 'svgpy/element.py SVGRectElement, SVGCircleElement, ...'),
   ('boxes', 'SVGGraphicsElement.get_bbox, get_descendant_path_data'),
   ('use', 'SVGUseElement')],
  ['get_path_data', 'get_bbox', 'get_total_length', 'points',
   'get_computed_geometry']),
P('C10', 'A declaration block says what was declared, longhand and shorthand '
         'alike',
  'After any history of set_property, indexing, remove_property and del on a '
  'declaration block of a style rule (or one read from a rule\'s text), every '
  'property has the value and priority it was last given, with property '
  'names and keywords matched without regard to case and custom properties '
  'with it; setting a shorthand (font, font-variant, font-synthesis, mask, '
  'mask-border, overflow, text-decoration, white-space) sets each of its '
  'longhands to the part given or to its default and nothing else; reading a '
  'shorthand gives a value which, set again, means the same, or is empty when '
  'no such value exists; removing a shorthand removes its longhands; no '
  'property is listed twice, a refused or invalid change changes nothing, and '
  'a read-only block never changes.',
  ['inputs', 'histories'],
  'every history of declarations set and removed, in every order of the '
  'components of a shorthand value',
  'whether a shorthand can be read depends on the values, priorities and '
  'order of up to twelve longhands; the tests sample single assignments',
  ['svgpy/css/__init__.py', 'svgpy/css/shorthands.py',
   'svgpy/css/longhands.py', 'svgpy/css/props.py'],
  [('blocks', 'svgpy/css/__init__.py CSSStyleDeclaration'),
   ('shorthands', 'svgpy/css/shorthands.py Shorthand'),
   ('longhands', 'svgpy/css/longhands.py Longhand')],
  ['get_property_value', 'get_property_priority', 'item', 'length', 'keys',
   'items', 'values', 'readonly']),
P('D09', 'The style attribute and the inline style of an element agree',
  'element.style always gives the declarations that the element\'s style '
  'attribute currently has, however the attribute was set, replaced or '
  'removed; and after any change made through element.style, the text of the '
  'attribute, parsed again, declares the same properties with the same '
  'values (what a shorthand in it resets is left out), the attribute being '
  'absent when nothing is declared.',
  ['inputs', 'histories'],
  'every history interleaving changes through the style object with changes '
  'of the attribute itself',
  'the two sides are reconciled lazily, property by property; what goes '
  'wrong depends on what both held before',
  ['svgpy/css/__init__.py', 'svgpy/utils.py', 'svgpy/dom.py'],
  [('attribute to block', 'CSSStyleDeclaration._declarations'),
   ('block to attribute', '_StyleAttribute.update'),
   ('text', 'svgpy/utils.py style_to_dict, dict_to_style')],
  ['style.get_property_value', 'style.get_property_priority',
   'style attribute text']),
P('C11', 'A style sheet holds the rules its text has, in order, through any '
         'edits',
  'A sheet read from any text of style, @media (nested to any depth), '
  '@font-face, @namespace and @font-feature-values rules, however it is '
  'spaced, cased or separated, holds exactly those rules in order, each with '
  'its selector, declarations and priorities, media queries, namespace or '
  'feature values, unknown rules left out; insert_rule and delete_rule on '
  'the sheet and on a media rule put in and take out just those rules at '
  'that position, every rule keeping its identity, its parent rule and its '
  'sheet; changing the declarations of one rule changes no other; and a '
  'media list behaves as a list of distinct queries compared without regard '
  'to case (append ignores one already there, delete refuses one that is '
  'not), however it is changed.',
  ['inputs', 'histories'],
  'every tree of rules, every spelling of it, and every history of rules and '
  'media queries put in and taken out',
  'the tests read a few fixed sheets; edits of nested rules and of media '
  'lists, and their effect on parents and positions, are hardly sampled',
  ['svgpy/css/__init__.py', 'svgpy/utils.py'],
  [('reading', 'svgpy/css/__init__.py CSSParser'),
   ('rule lists', 'CSSStyleSheet.insert_rule, delete_rule, CSSGroupingRule'),
   ('media', 'MediaList, CSSMediaRule'),
   ('rules', 'CSSStyleRule, CSSFontFaceRule, CSSNamespaceRule, '
             'CSSFontFeatureValuesRule')],
  ['css_rules', 'parent_rule', 'parent_style_sheet', 'selector_text',
   'style', 'media_text', 'condition_text', 'item']),
P('C13', 'A media query matches exactly when the window meets it',
  'For any window (sizes of the viewport, the screen and the document '
  'element, colour depth, scan, update, gamut, orientation, pixel ratio and '
  'zoom) and any list of media queries - media types with not or only, '
  'features alone, bounded with min- and max-, compared in ranges from '
  'either or both sides, joined by and or by or, or one negated - a '
  'MediaQueryList matches exactly when one query of the list is met, however '
  'the text is spaced or cased; unknown types and features and invalid '
  'values are not met and spoil only their own query; and a list keeps '
  'answering for the window as it is now, asking changing nothing. (Groups '
  'of conditions inside parentheses, and not in front of anything but a '
  'single type or feature, are left out but for the known findings.)',
  ['inputs', 'histories'],
  'every query over every feature and every state of the window, and every '
  'history of changes of the window under standing queries',
  'each answer depends on the form, spacing and units of a query and on a '
  'dozen settings at once; the tests check single features',
  ['svgpy/css/mediaquery.py', 'svgpy/css/screen.py', 'svgpy/window.py'],
  [('queries', 'svgpy/css/mediaquery.py parse, match'),
   ('the window', 'svgpy/window.py MediaQueryList, Window'),
   ('screen', 'svgpy/css/screen.py Screen, ScreenOrientation')],
  ['match_media().matches', 'screen.orientation.type']),
P('U14', 'A URL keeps its parts apart, its text reads back, and references resolve',
  'For any URL of the special schemes and file (with user, password, host, '
  'port, path, search parameters and fragment of any characters, however '
  'they are percent-encoded) and any history of assignments: each part reads '
  'as it was given, encoded; setting a part changes that part only, and a '
  'value that is refused changes nothing; dot segments never remain in a '
  'path nor lead above its root, and an encoded solidus is not a separator; '
  'a default port is not written; the text of a URL reads back as the same '
  'URL; search parameters are a mapping whose text lists every parameter '
  'once; a reference of any kind (full, host, absolute or relative path, '
  'query, fragment, empty) resolves against a base as RFC 3986 has it, the '
  'base unchanged; a blob URL has the origin of the URL in it; a data URL, '
  'percent-encoded or base64, gives exactly the text and the media type put '
  'into it (or the default type); and a Location behaves like its URL. '
  '(Empty path segments '
  'are collapsed, by design; hosts are not checked.)',
  ['inputs', 'histories'],
  'every URL, spelling and reference, and every history of assignments',
  'what one part does to another depends on the characters in it and on '
  'what was assigned before; the tests parse single URLs',
  ['svgpy/url.py'],
  [('parsing and resolving', 'svgpy/url.py URL.__init__, _parse_url'),
   ('parts', 'svgpy/url.py URL setters'),
   ('search', 'svgpy/url.py URLSearchParams'),
   ('location', 'svgpy/url.py Location')],
  ['href', 'origin', 'host', 'pathname', 'search', 'hash', 'search_params',
   'tostring']),
P('C12', 'The value of a property is the one the cascade and inheritance give it',
  'For any document with style and link elements and xml-stylesheet '
  'instructions (of any type, with media, '
  'imports, nested @media blocks, namespaces and invalid rules), presentation '
  'attributes and style attributes, and any history of changes of them, of '
  'the tree, of ids and classes and of the window: of every element in the '
  'document each property has the value of the declaration that wins - '
  'important author ones over others, style attributes over rules, rules by '
  'specificity of the most specific selector matching (type, class, id and '
  'attribute selectors, first, last and only children, all combinators, '
  'lists, prefixes and the default namespace) and then by order, anything '
  'over presentation attributes, those over the user agent - longhands '
  'taken from shorthands; where none is declared, an inherited property has '
  'the value of the parent and another one its initial value; inherit, '
  'initial and unset mean what they say and never remain; and nothing inside '
  'an element not displayed is displayed. (Conflicts inside one block of '
  'declarations are C10; relative font sizes and weights and revert are left '
  'out, and elements outside the document have no values; what the font '
  'shorthand resets besides its longhands is left out.)',
  ['inputs', 'histories'],
  'every style sheet, tree and set of declarations, and every history of '
  'changes of them',
  'which declaration wins depends on all the others, on their selectors and '
  'on the whole tree and the window; the tests sample a few documents',
  ['svgpy/style.py', 'svgpy/core.py', 'svgpy/css/__init__.py',
   'svgpy/css/props.py'],
  [('cascade', 'svgpy/style.py get_cascaded_style, _iter_declarations'),
   ('style sheets', 'svgpy/style.py get_css_style_sheets'),
   ('inheritance', 'svgpy/core.py CSSUtils.get_inherited_style'),
   ('imports', 'svgpy/css/__init__.py CSSParser.parse')],
  ['get_inherited_style', 'get_computed_style', 'isdisplay']),
P('T25', 'Numbers with units and their expressions keep their type and meaning',
  'For any CSS Typed OM value - numbers of any unit, and sums, products, '
  'negations, inversions, minima, maxima and clamps of them, nested in any '
  'way and sharing parts - its type is the one the types of its parts give '
  '(percentages taking the dimension they are added to, incompatible sums '
  'refused); what it adds up to in canonical units is its arithmetic value, '
  'terms of the same units and powers added and no others; to() and '
  'to_sum() give that value in the asked units or refuse; numbers compare by '
  'amount whatever their units, equals() compares structure; add() adds '
  'numbers of one unit and joins sums; making, converting or comparing '
  'values changes no value made before, a changed number shows in every '
  'value made of it; the text of a value has the parentheses its meaning '
  'needs, and any math text - calc(), min(), max(), clamp() and parentheses '
  'nested in any way, in any layout - is read with the usual precedence as '
  'the value it says, or refused. (Inverting zero is left out; a number and '
  'a percentage add up, as the existing tests have it; sub, mul, div, min, '
  'max and negate methods are not implemented by svgpy.)',
  ['inputs', 'histories'],
  'every expression of numbers and units, every text of one, and every '
  'history of operations on values sharing parts',
  'what a term means depends on all operators around it and what an '
  'operation may change on who shares the operand; the tests read a list of '
  'flat texts',
  ['svgpy/css/types.py'],
  [('types', 'svgpy/css/types.py CSSNumericType'),
   ('units', 'svgpy/css/types.py UnitType, CSSUnitValue'),
   ('reading', 'svgpy/css/types.py CSSNumericValue.parse'),
   ('expressions', 'svgpy/css/types.py CSSMathValue classes')],
  ['type', 'create_sum_value', 'to', 'to_sum', 'equals', 'add', 'tostring',
   'parse']),
P('X30', 'A document written out reads back the same, and reads as it is written',
  'For any document - elements of any names and namespaces, attributes, '
  'comments, processing instructions and text with any characters XML allows '
  '- read from a string, bytes, a file, a file-like object, a file: URL or a '
  'data: URL, in any encoding it declares or its content type names, with '
  'entities, character references, CDATA sections and either quotes: the '
  'tree has exactly the nodes, names, namespaces, attributes and text the '
  'text says, each node of the class its name asks for. What tostring() '
  'writes, in any encoding, is well formed, and says (and reads back as) the '
  'same tree. An element, comment or processing instruction made by a '
  'parser, a document or an element has the name, namespace, attributes, '
  'data, owner and place asked for; names, prefixes and data that cannot be '
  'are refused and nothing changes, nor do the arguments. The text content '
  'of text and tspan is their text and that of tspan below them, of title, '
  'desc and metadata all text below them, of comments and processing '
  'instructions their data, in order; setting it sets it. (ASCII output of '
  'comments with other characters, and moving nodes whose prefixes lxml '
  'makes up for several namespaces at once, are left to lxml.)',
  ['inputs', 'histories'],
  'every tree and every text of one, every way of reading and writing it and '
  'every history of edits between',
  'characters, encodings, namespaces in scope and positions of nodes all '
  'combine; the tests read a few fixed files',
  ['svgpy/element.py', 'svgpy/dom.py', 'svgpy/window.py', 'svgpy/utils.py'],
  [('reading', 'svgpy/element.py SVGParser, svgpy/window.py '
    'SVGDOMImplementation.parse, svgpy/utils.py load'),
   ('making', 'svgpy/element.py SVGParser.create_element_ns, svgpy/dom.py '
    'Element.create_sub_element_ns, svgpy/utils.py QualifiedName'),
   ('classes', 'svgpy/element.py SVGElementClassLookup'),
   ('text content', 'svgpy/dom.py Element.text_content')],
  ['fromstring', 'parse', 'tostring', 'create_element_ns', 'text_content',
   'node_name', 'namespace_uri']),
P('N31', 'A document is the page its URL names, and a refused navigation changes nothing',
  'For every site of files and every history of navigation - through '
  'window.location, document.location, href, assign(), hash, pathname, '
  'reload() - by absolute and relative references, edits and changes of the '
  'files: when a navigation succeeds, the document is at the URL the '
  'reference names (document.url, document_uri and location agree) and holds '
  'exactly the nodes of the file as it is then, before, in and after the '
  'root element, all owned by the document, and edits since are gone; '
  'about:blank is an empty document. A page that does not exist or is not '
  'well formed, a data: URL, and a relative reference where an absolute one '
  'is needed are refused, and URL and page stay as they were. No document is '
  'changed by the navigation of another one. (Loading again on a change of '
  'the fragment, and file: URLs with a query, are as the code has them.)',
  ['inputs', 'histories', 'fault_sequences'],
  'every site, every reference and every history of navigations, edits and '
  'changes of files between them',
  'what a document holds depends on where it was, what failed before and '
  'what the files are by then; the tests navigate once',
  ['svgpy/window.py', 'svgpy/url.py', 'svgpy/utils.py'],
  [('navigation', 'svgpy/window.py Document.navigate, Document.location, '
    'Window.location'),
   ('location', 'svgpy/url.py Location'),
   ('references', 'svgpy/utils.py normalize_url')],
  ['location', 'navigate', 'document_element', 'child_nodes', 'url']),
P('R32', 'A document has the style sheets its text names, loaded from where they are named',
  'For every site of pages and style sheets and every history of edits and '
  'changes of the files: style_sheets are the sheets of the xml-stylesheet '
  'instructions before the root element, then of link and style elements in '
  'document order, that are neither alternate, nor of another type, nor for '
  'other media, each with its owner node, and each with the rules its text '
  'has at that time, in any encoding its byte order mark, content type, '
  '@charset or charset names. References are relative to the document, those '
  'of an imported sheet to that sheet; imports carry their URL, media and '
  'the rules of the sheet they import, to any depth. A sheet that cannot be '
  'loaded, or that is imported by itself through any chain, is empty, and '
  'nothing fails. What applies to an element follows: the rules of all '
  'sheets in order, those imported where they are imported, and those of '
  'imports for other media not at all.',
  ['inputs', 'histories', 'fault_sequences'],
  'every graph of style sheets importing each other, missing ones and loops '
  'included, and every reference, encoding and place they are named from',
  'graphs, relative references, media and encodings combine; the tests load '
  'a few fixed sheets',
  ['svgpy/style.py', 'svgpy/css/__init__.py', 'svgpy/utils.py',
   'svgpy/element.py'],
  [('sheets of a document', 'svgpy/style.py get_css_style_sheets'),
   ('imports', 'svgpy/css/__init__.py CSSImportRule'),
   ('loading', 'svgpy/css/__init__.py CSSParser.parse, svgpy/utils.py load'),
   ('what applies', 'svgpy/style.py flatten_css_rules')],
  ['style_sheets', 'css_rules', 'href', 'media', 'get_computed_style']),
P('T33', 'A text shows the characters written in it, each where it is placed',
  'For every text element and every history of writing in it, nesting tspans, '
  'putting comments, instructions and other elements between, hiding parts, '
  'and changing white-space, font-size, x, y, dx and dy: get_chars of the '
  'text and of every tspan returns the characters written in the element, '
  'its displayed tspans and between them, in order, none lost and none '
  'added, with white space collapsed, over element boundaries, as '
  'white-space says (and kept where it is preserved); '
  'get_number_of_chars counts these; get_computed_text_length and '
  'get_sub_string_length are the sums of the advances of the characters '
  'named, at their own font sizes; get_bbox of the text encloses the '
  'characters where x, y, dx and dy place them, each list indexed by the '
  'characters of the element it is on, the nearest element having a value '
  'for a character deciding; characters without a position follow the one '
  'before.',
  ['inputs', 'histories'],
  'every nesting, every division of the characters into runs and every '
  'combination of white-space values and position lists',
  'the effects are over run and element boundaries; the tests have a few '
  'fixed texts',
  ['svgpy/text.py', 'svgpy/core.py'],
  [('runs', 'svgpy/text.py SVGTextContentElement._get_descendant_chars'),
   ('white space', 'svgpy/core.py CSSUtils.normalize_text_content'),
   ('lengths', 'svgpy/text.py get_sub_string_length'),
   ('positions', 'svgpy/text.py _get_text_path_data')],
  ['get_chars', 'get_number_of_chars', 'get_computed_text_length',
   'get_sub_string_length', 'get_bbox']),
P('F34', 'Relative font sizes and weights are relative to the parent, once',
  'For every tree of elements and every history of declaring font-size and '
  'font-weight in attributes and style attributes and of moving elements: '
  'the computed font size and weight of every element are those of its own '
  'declaration - the style attribute over the attribute - where em, percent, '
  'larger, smaller, bolder and lighter are relative to the computed value of '
  'the parent of the element that declares them; an element that declares '
  'none, inherit or unset has the computed value of its parent; initial is '
  'medium and normal; no size declared is less than the least one; and a '
  'declaration reaches only the element and those below it.',
  ['inputs', 'histories'],
  'every tree, every combination of declared values and every history of '
  'changes',
  'a value depends on every ancestor and on which of them declares what; the '
  'tests nest one kind of value',
  ['svgpy/core.py', 'svgpy/dom.py'],
  [('sizes', 'svgpy/core.py CSSUtils.compute_font_size'),
   ('weights', 'svgpy/core.py CSSUtils.compute_font_weight'),
   ('computed style', 'svgpy/dom.py Element.get_computed_style')],
  ['get_computed_style']),
]
