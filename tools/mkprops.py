import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or [],hook_needed=hook)))
m=lambda n,w:dict(name=n,where=w)
s=lambda n,mean,w:dict(name=n,meaning=mean,where=w)
D='crevice-derive/src/layout.rs'
p('C01','Derived std140 types have exactly the std140 layout',
 "For every struct of supported fields, including nested derived structs, the derived std140 version places every member, matrix column and vector component at the byte offset the GLSL std140 rules give it. Its size and its declared alignment are also the ones std140 gives that struct, so a shader that reads the bytes under std140 sees every member where it expects it.",
 ['programs','inputs'],'all finite sequences of field types over scalars, vectors, matrices and (recursively) derived structs; all member values',
 'The tests fix about ten hand-written structs (mostly one or two fields, one nesting case); layout depends on every combination and order of field sizes and alignments, which a handful of structs cannot cover, and mat/dvec shapes are never sent through the GPU.',
 [D,'src/internal.rs','src/std140/primitives.rs','src/std140/traits.rs'],
 [m('padding inserted after each field, computed from the offset so far and the next field alignment',D+': pad_fn_impls / offset_after_field'),m('struct alignment = max of field alignments and 16',D+': struct_alignment; crevice-derive/src/lib.rs: derive_as_std140'),m('alignment arithmetic','src/internal.rs: align_offset, max_arr')],
 [s('running offset','bytes laid out so far in the struct being derived',D+': offset_after_field')],['bytes of the converted value','size and alignment of the converted type'])
p('C02','Derived std430 types have exactly the std430 layout',
 "For every struct of supported fields, including nested derived structs, the derived std430 version places every member, matrix column and vector component at the byte offset the GLSL std430 rules give it, with no rounding of struct alignment up to 16. Its size and its declared alignment are also the ones std430 gives that struct.",
 ['programs','inputs'],'all finite sequences of field types over scalars, vectors, matrices and (recursively) derived structs; all member values',
 'Only four structs are asserted for std430 in the tests, none of them nested or with doubles; trailing and inner padding depend on unbounded combinations of fields.',
 [D,'src/internal.rs','src/std430/primitives.rs','src/std430/traits.rs'],
 [m('padding inserted after each field',D+': pad_fn_impls'),m('struct alignment = max of field alignments',D+': struct_alignment; crevice-derive/src/lib.rs: derive_as_std430')],
 [s('running offset','bytes laid out so far in the struct being derived',D+': offset_after_field')],['bytes of the converted value','size and alignment of the converted type'])
p('C03','Built-in scalar, vector and matrix types match GLSL in both layouts',
 "Every built-in scalar, vector and matrix type, in std140 and in std430, has the size, alignment, component order and column stride that the GLSL rules give the GLSL type it is named after, with matrices stored column by column. The layout version of every supported foreign scalar, vector, point or matrix type is the one for its GLSL counterpart.",
 ['inputs','configurations'],'all 26 GLSL numeric types x both layouts x all component values',
 'The tests look at six types with sizes only, mostly in std140; integer, bool and double vectors and matrices have no value-level test in either layout.',
 ['src/std140/primitives.rs','src/std430/primitives.rs','src/imp/imp_mint.rs','src/util.rs','src/bool.rs'],
 [m('tables of alignments and explicit column padding','src/std140/primitives.rs and src/std430/primitives.rs: vectors!, matrices!'),m('conversion from foreign types','src/util.rs: easy_impl')],None,['bytes, size, alignment of a converted value'])
p('C04','Every byte that is not member data is zero, and the bytes are deterministic',
 "In the bytes of any converted value, and in everything a writer emits, each byte that belongs to no member (inner padding, trailing padding, matrix column padding, gaps between writes) is zero. Two conversions of equal values give identical bytes whatever memory held before.",
 ['inputs','programs','histories'],'all values of all supported and derived types, in both layouts; all sequences of writes; all prior contents of memory',
 'No test looks at a padding byte at all; uninitialised or non-zero padding reads back correctly through every existing assertion.',
 [D,'src/util.rs','src/std140/writer.rs','src/std430/writer.rs','src/std140/primitives.rs'],
 [m('generated padding fields initialised from the zeroed value',D+': generated as_ method'),m('zeroed remainder of a matrix','src/util.rs: easy_impl'),m('zero bytes written as padding','src/std140/writer.rs, src/std430/writer.rs: write_std140 / write_std430')],None,['as_bytes of a converted value','bytes received by the sink'])
p('C05','Conversion round-trips, and reading back ignores padding',
 "Converting any value to its layout version and back returns the same value bit for bit, in both layouts. Reading back bytes that another party (a shader) filled in yields, for each member, exactly the bits stored at that member's offset, whatever is in the padding.",
 ['inputs','programs','histories'],'all values (including NaN payloads, infinities, signed zeros, extreme integers) of all supported and derived types; all contents of the buffer being read',
 'One round-trip test with one struct in one layout and small floats; six GPU round trips with float-only structs.',
 [D,'src/util.rs','src/std140/traits.rs','src/std430/traits.rs','src/bool.rs'],
 [m('field-by-field reverse conversion',D+': generated from_ method'),m('reverse conversion of foreign types','src/util.rs: easy_impl, minty_impl')],None,['from_std140 / from_std430 results'])
p('C06','A writer places each value at its next aligned offset and reports where',
 "Whatever has been written before, writing a value appends zero bytes up to the next multiple of the value's alignment, then the value's bytes, and nothing else, and never touches what was written earlier. The returned offset is where the value's (or, for a sequence, the first element's) first byte landed in the output, and the reported length is the number of bytes emitted so far.",
 ['histories','inputs'],'all sequences of writes of any supported types, slices and iterators, in both layouts, at any current offset including beyond 4 GiB',
 'Two doc examples and one two-write test; returned offsets are never asserted and only one length is.',
 ['src/std140/writer.rs','src/std430/writer.rs','src/std140/traits.rs','src/std430/traits.rs','src/internal.rs'],
 [m('pad to alignment, write, advance','Writer::write_std140 / Writer::write_std430')],[s('offset','bytes emitted so far','src/std140/writer.rs, src/std430/writer.rs: Writer.offset')],['bytes received by the underlying Write','returned offset','len()'])
p('C07','Size calculations predict the writer exactly',
 "Adding a sequence of types to a sizer returns, for each of them, the same offset a fresh writer returns when values of those types are written in that order, and the final length equals the number of bytes that writer emits. The size reported for a type, or for a value or slice, equals the number of bytes emitted when it is the first thing written.",
 ['histories','inputs'],'all sequences of types in both layouts; all slices of any length, including empty; offsets beyond 4 GiB',
 'The sizer is exercised by one doc example per layout with two additions; its returned offsets and its agreement with a writer are never asserted.',
 ['src/std140/sizer.rs','src/std430/sizer.rs','src/std140/traits.rs','src/std430/traits.rs'],
 [m('same alignment arithmetic as the writer','Sizer::add'),m('size of slices measured by writing to a sink','WriteStd140::std140_size / WriteStd430::std430_size')],[s('offset','size so far','Sizer.offset')],['Sizer::add / len results','std140_size, std140_size_static and std430 equivalents'])
p('C08','Writing an iterator equals writing its items one by one, in order',
 "Writing an iterator emits exactly the bytes that writing each produced item in turn would emit, each item once and in order, and returns the offset of the first item, or the current length when there is none. A slice is written by the same return rule, with each element's bytes emitted exactly once, in order, and nothing but zero padding between them.",
 ['inputs','histories'],'all iterators and slices of any length (0, 1, many), of any supported type, starting at any offset, in both layouts',
 'write_iter has no test at all, the empty cases have none, and slices are written in two doc examples whose bytes and results are not asserted; a past release wrote the first element twice unnoticed.',
 ['src/std140/writer.rs','src/std430/writer.rs','src/std140/traits.rs','src/std430/traits.rs'],
 [m('first item sets the returned offset, then the rest','Writer::write_iter; WriteStd140 / WriteStd430 for slices')],None,['bytes received by the sink','returned offset'])
p('C09','Writers stay correct over short, interrupted and failing outputs',
 "Through an output that accepts data in pieces or is interrupted, a writer emits the same bytes as through one that accepts everything at once. When the output reports an error or accepts nothing, the write reports failure, what reached the output is a prefix of what should have, and nothing more is emitted by that call. If the output takes each piece wholly or not at all, the reported length still equals the bytes it holds afterwards, so later writes land at the offsets they return.",
 ['fault_sequences','histories'],'all schedules of short accepts, interruptions, zero-length accepts and errors at any output call, including during padding, followed by any further writes',
 'All tests write to a Vec or a large slice that never fails or splits a write.',
 ['src/std140/writer.rs','src/std430/writer.rs','src/std140/traits.rs','src/std430/traits.rs'],
 [m('write_all for padding and value; offset advanced as bytes are accepted; errors propagated with ?','Writer::write_std140 / write_std430')],[s('offset','bytes emitted so far','Writer.offset')],['calls received by the underlying Write','returned results','len()'])
p('C10','All supported math libraries convert to the same GLSL bytes',
 "A vector, point or matrix from mint, cgmath, glam or nalgebra converts to the bytes of its GLSL counterpart: components in x, y, z, w order and matrices column by column, equal across libraries for mathematically equal values. Reading back gives an equal value of that library, in both layouts.",
 ['configurations','inputs'],'all supported types of the four libraries x both layouts x all component values',
 'No test runs a cgmath, glam or nalgebra conversion; they are only compiled.',
 ['src/imp/imp_mint.rs','src/imp/imp_cgmath.rs','src/imp/imp_glam.rs','src/imp/imp_nalgebra.rs','src/util.rs'],
 [m('per-component conversion or conversion through mint','src/util.rs: easy_impl, minty_impl')],None,['bytes and read-back values'])
p('C11','Generated GLSL declares exactly the struct whose bytes are produced',
 "The GLSL text generated for a struct is one well-formed struct declaration with the struct's name and one member per field, in order, with the field's name as a GLSL identifier and the GLSL type the field is laid out as. Reading that declaration under the std140 or std430 rules gives the member offsets and size of the bytes produced for the struct, and the exposed name and member list agree with the text.",
 ['programs'],'all structs of supported fields (any count, order, nesting, names including raw identifiers)',
 'One snapshot of one two-field struct; most type names (int, uint, bool and double vectors, doubles matrices, math-library types) are never generated in a test.',
 ['src/glsl.rs','crevice-derive/src/glsl.rs','src/util.rs','src/std140/primitives.rs','src/std430/primitives.rs'],
 [m('field list and name constants emitted by the derive','crevice-derive/src/glsl.rs: emit'),m('text rendering','src/glsl.rs: GlslStruct::glsl_definition'),m('type names','Glsl::NAME implementations')],None,['glsl_definition text','NAME, FIELDS'])
p('C12','The dynamic-uniform wrapper only raises alignment, to at least 256',
 "A wrapped value has the same bytes and size as the value itself and an alignment that is the larger of 256 and the value's own alignment. So in any sequence of writes or sizings every wrapped value starts at a multiple of that alignment, wrapping nests, and reading back gives the wrapped value.",
 ['inputs','histories','programs'],'all wrapped types, including ones aligned above 256 and already wrapped ones, in any history of writes and sizings and as struct members',
 'Two tests with one float each, at two offsets.',
 ['src/std140/dynamic_uniform.rs','src/internal.rs'],
 [m('alignment constant = max(256, inner)','src/std140/dynamic_uniform.rs: DynamicUniformStd140')],None,['alignment constant','writer offsets','sizer offsets','bytes'])
p('C13','Booleans are 32-bit 0/1 on output and zero/non-zero on input',
 "A boolean, alone, in a vector, or as a struct member, occupies four bytes that are the 32-bit integer 1 for true and 0 for false. Read back, it is false exactly when its 32-bit word is zero, for every word a shader may have stored, and this holds in both layouts and for every component separately.",
 ['inputs'],'all 2^32 words per component; all boolean vectors; all positions in structs; both layouts',
 'The one bool test checks sizes and offsets, never a value in either direction.',
 ['src/bool.rs','src/std140/primitives.rs','src/std430/primitives.rs'],
 [m('conversion both ways','src/bool.rs: From<bool> for Bool, From<Bool> for bool')],None,['bytes; values read back'])
p('C14','A slice is written with the layout GLSL gives an array',
 "Writing a slice puts element i at exactly the offset that the GLSL rules of the layout (std140: base alignment and stride rounded up to 16; std430: natural ones) give element i of an array of that element type placed next in the buffer.",
 ['inputs','histories'],'all element types (scalars, vectors, matrices, structs), all lengths, both layouts, any starting offset',
 'Slices occur in doc examples only, with one 48-byte struct type whose stride is the same under any rule.',
 ['src/std140/traits.rs','src/std430/traits.rs','src/std140/writer.rs','src/std430/writer.rs'],
 [m('every element is aligned to its own alignment; struct sizes are multiples of their alignment','WriteStd140 / WriteStd430 for slices; generated trailing padding')],None,['positions of elements in the output'])
p('C15','Every struct with named, supported fields can be derived and used',
 "Every non-generic struct with named fields whose types are all supported can derive its std140 version, its std430 version and its GLSL declaration, and the result behaves as for any other struct. This holds for any number of fields (at least one), any nesting, any field names (raw identifiers and names that look generated included), any visibility, with or without imports, and for the wrapper and user-provided types as fields.",
 ['programs'],'all such declarations: field counts, names, nesting, visibility, placement in modules or functions, imports',
 'The tests derive about fifteen small structs, all with the same style of names, imports and placement.',
 [D,'crevice-derive/src/glsl.rs','crevice-derive/src/lib.rs','src/std140/dynamic_uniform.rs','src/glsl.rs'],
 [m('names of generated items and padding fields',D+': pad_fns, generated_struct_fields'),m('absolute paths in generated code',D+': mod_path, trait_path')],None,['whether rustc accepts the derive; layout of the result'])
p('C16','Features and no_std never change a layout',
 "The std140 and std430 size, alignment and bytes of every type, its read-back, and the sizer's results are the same whether crevice is built with or without the standard library and with or without the math-library features.",
 ['configurations','programs'],'all supported feature combinations x all supported and derived types and values',
 'The no_std configuration is only compiled (cargo check), never run, and no two configurations are ever compared.',
 ['src/lib.rs','src/std140.rs','src/std430.rs','src/std140/traits.rs','src/std430/traits.rs','src/imp.rs',D],
 [m('cfg(feature = "std") only around writer and text generation','src/lib.rs and src/std140.rs, src/std430.rs')],None,['bytes, sizes, alignments in each configuration'])
p('C17','Layout types are plain data: any bytes are a valid value and survive unchanged',
 "Any byte sequence of the right size, at any address, can be viewed as a value of a layout version (built-in, boolean, wrapper or derived), and the bytes of that value, of its copies, and of its conversion to itself are again exactly those bytes, including bytes that no member covers. The number of bytes always equals the reported static size.",
 ['inputs','programs'],'all byte contents x all built-in and derived layout types x both layouts',
 'No test reads bytes that did not come from the same process through the same conversion (apart from six float-only GPU round trips).',
 [D,'src/std140/primitives.rs','src/std430/primitives.rs','src/bool.rs','src/std140/dynamic_uniform.rs','src/std140/traits.rs'],
 [m('C representation with explicit padding members and plain-data marker implementations',D+'; vectors!, matrices!')],None,['as_bytes after a cast from bytes'])
p('C18','What has no counterpart in GLSL is refused at compile time',
 "Only types that stand for something in a layout can be converted to it, written, sized, wrapped or be fields of a struct deriving it, and only types with a GLSL name can be fields of a struct deriving GLSL. A number of 8, 16, 64 or 128 bits or of pointer size, a char, string, option or tuple, a vector of such numbers, a matrix of integers or booleans, a type laid out for the other layout, a struct that does not derive the layout, and an enum, union, tuple or unit struct are refused by the compiler and never silently given a layout or name, in every feature configuration.",
 ['programs','configurations'],'all types without a counterpart x all ways of using a type x both layouts and GLSL x feature configurations',
 'Nothing in the test suite compiles code that must be refused.',
 ['crevice-derive/src/layout.rs','crevice-derive/src/glsl.rs','src/std140/traits.rs','src/std430/traits.rs','src/std140/dynamic_uniform.rs','src/imp/imp_mint.rs','src/glsl.rs'],
 [m('trait bounds of generated code and of writers and sizers','src/std140/traits.rs, src/std140/writer.rs, src/std140/sizer.rs and their std430 twins'),m('panics in the derives','crevice-derive/src/layout.rs, crevice-derive/src/glsl.rs')],None,['whether rustc accepts a program'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import jsonschema
for x in P:
    jsonschema.validate(x,S)
    n=x['statement'].count('. ')+1
    if n>3: print(x['id'],n)
