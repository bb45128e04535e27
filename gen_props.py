#!/usr/bin/env python3
# Writes properties.jsonl (kept as a generator so the wording stays reviewable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=m[0],where=m[1]) for m in mech],observe_at=observe,hook_needed=None)))
p("C01","Packing a number writes exactly its own bits",
 "When a number is packed into a field of n bits at bit offset p, the output bits p..p+n-1 hold exactly the low n bits of its binary image - most significant bit first for big endian, least significant byte first (each byte, and a final partial byte, most significant bit first) for little endian - and the write position moves to p+n. No other bit of the output changes, for every width 1..64, every starting offset within a byte and both byte orders, whether or not the field is byte aligned.",
 ["inputs"],"all values, all widths 1..64, all bit offsets 0..7, both byte orders, all buffer contents",
 "Tests pack about forty hand-made structs; 64 widths x 8 offsets x 2 orders x 2^64 values are out of reach, and most unaligned little-endian widths are never touched.",
 ["encoder.go"],[("writeBits","encoder.go"),("writeBit","encoder.go"),("getBit","encoder.go"),("write8..write64","encoder.go")],["Pack"])
p("C02","Unpacking a number reads exactly its own bits",
 "When a field of n bits is unpacked at bit offset p, the raw value obtained is the one whose packed image is input bits p..p+n-1 (most significant bit first for big endian, least significant byte first for little endian), with every higher bit of the value zero before sign extension, and the read position moves to p+n. The input bytes are never modified, and a field that does not fit in the remaining input is never reported as successfully read.",
 ["inputs"],"all input bytes, widths 1..64, bit offsets 0..7, both byte orders",
 "Tests decode a few fixed byte strings; unaligned reads at most width/offset/order combinations and reads that run off the end are not sampled.",
 ["decoder.go"],[("readBits","decoder.go"),("readBit","decoder.go"),("putBit","decoder.go"),("read8..read64","decoder.go")],["Unpack"])
p("C03","Integer fields decode to the value that was encoded",
 "Decoding an n-bit field as a signed integer yields the two's-complement value of those n bits, and decoding it as an unsigned integer zero-extends them; full-width fields are unchanged. Hence a value that fits its field is recovered exactly when the packed field is unpacked.",
 ["inputs"],"all raw values, all widths, signed and unsigned, 8/16/32/64-bit containers",
 "The tests contain a handful of signed bit-field values and even pin one wrong result; the full domain is 2^64 per width.",
 ["decoder.go","encoder.go"],[("extend8..extend64","decoder.go"),("readS8..readU64","decoder.go"),("writeS8..writeS64","encoder.go")],["Unpack","Pack"])
p("C04","Skips and padding advance both directions identically",
 "Skipping k bits (skip= options, blank _ fields, fields that cannot be set) advances the packing position and the unpacking position by exactly k bits from any starting bit offset, including when it ends exactly on a byte boundary, and leaves the output bits that were skipped untouched (zero). Fields before and after a skip are unaffected by it.",
 ["inputs"],"all skip counts, all starting bit offsets, encoder and decoder",
 "Existing tests only skip whole bytes or end skips off a byte boundary, so the boundary arithmetic is unexercised.",
 ["encoder.go","decoder.go"],[("skipBits","encoder.go"),("skipBits","decoder.go"),("skip","encoder.go, decoder.go")],["Pack","Unpack"])
p("C05","Reported size follows the documented layout",
 "The bit size reported for a value is the sum, over its fields in order, of the documented size of each: the kind's width or the bit-field width, plus 8 bits per skip byte, arrays and slices as length times element (element sizes added individually when they differ), structs flat, pointers as their target and nothing when nil, excluded (if=false) fields nothing, the selected case of a switch, custom sizers as they report. The byte size is that number rounded up to whole bytes, and packing allocates exactly that many bytes.",
 ["inputs","programs"],"all types, tags and values accepted by the library",
 "TestSizeOf samples about 40 types; the agreement needed by every Pack call ranges over all type and tag combinations.",
 ["structstack.go","packing.go","field.go"],[("fieldbits","structstack.go"),("fieldbytes","structstack.go"),("switcbits","structstack.go"),("Pack allocation","packing.go")],["SizeOf","BitSize","Pack"])
p("C06","Packing emits every field once, in order, as its binary type",
 "Packing a value writes its fields once each, in declaration order, flat, with no bytes in between other than requested skips: each scalar as the width and representation of its binary type, arrays and slices element by element from index 0 (fixed arrays filled up with zero elements when the value is shorter), structs field by field, pointers as their target, nothing for nil pointers or for fields whose if= condition is false. The source value is not changed except for counting fields.",
 ["inputs","programs"],"all types, tags and values",
 "Tests cover particular struct shapes; order, completeness and representation must hold for every composition of kinds and tags.",
 ["encoder.go"],[("write","encoder.go"),("intFromField/uintFromField","encoder.go")],["Pack"])
p("C07","Unpacking reads every field once, in order, into its own place",
 "Unpacking reads the fields once each, in declaration order, flat, from consecutive positions, storing each decoded value into the matching field: scalars by the width and representation of their binary type, fixed arrays element by element from index 0, strings as the bytes up to the first NUL for fixed arrays and exactly the counted bytes otherwise, structs field by field, pointers into a freshly allocated target; fields whose if= condition is false are left alone and consume nothing.",
 ["inputs","programs"],"all types, tags and input bytes",
 "Tests cover particular struct shapes; order, completeness and representation must hold for every composition of kinds and tags.",
 ["decoder.go"],[("read","decoder.go"),("setInt/setUint","decoder.go")],["Unpack"])
p("C08","Byte-order options apply to exactly their field and its contents",
 "A field marked big or little is packed and unpacked in that byte order together with everything nested inside it, and the surrounding order is back in force for every field that follows it - also when the field ends early or fails. Fields without an option use the order of the innermost enclosing field that has one, else the order passed by the caller.",
 ["inputs","programs"],"all nestings of order options, all exits from a field",
 "Tests use one level of nesting with no early exits.",
 ["encoder.go","decoder.go"],[("order save/restore","encoder.go write, decoder.go read")],["Pack","Unpack"])
p("C09","Boolean fields use the documented encodings",
 "A bool is packed as 0 for false and 1 for true, with variantbool as all ones for true, and with invertedbool with the roles of true and false exchanged; it is unpacked as (raw value is non-zero), exchanged for invertedbool. This holds in signed and unsigned binary types of every width, and unpacking a packed bool gives the bool back.",
 ["inputs"],"both truth values, all flag combinations, signed and unsigned binary types, all raw values on decode",
 "Tests use raw values 0, 1 and all-ones only; decoding must work for every raw value.",
 ["encoder.go","decoder.go"],[("intFromField/uintFromField","encoder.go"),("setInt/setUint","decoder.go")],["Pack","Unpack"])
p("C10","Counting fields and the sequences they count agree",
 "When packing, a field designated as the count of a slice or string (sizeof or sizefrom) is written as that sequence's actual element count; when unpacking, the sequence receives exactly as many elements as the decoded count says (or as its size= expression says), for signed and unsigned count types. Packing a sequence whose length disagrees with its size= expression fails.",
 ["inputs","programs"],"all counts and lengths, all positions of the two fields, signed and unsigned count types",
 "Tests use counts up to 8 with the count field first and no ignored fields around.",
 ["encoder.go","decoder.go","field.go","structstack.go"],[("TIndex handling","encoder.go write"),("SIndex handling","decoder.go read"),("sizeof/sizefrom resolution","field.go fieldsFromStruct"),("evalSize","structstack.go")],["Pack","Unpack"])
p("C11","A switch field uses exactly the first matching case",
 "For a switch field, packing, unpacking and sizing all select the first case, in declaration order, whose value equals the switch value, or the default if none matches, or nothing if there is no default; unpacking resets all the cases first. Two defaults, a member that is neither case nor default, or a switch on something other than a struct is rejected.",
 ["inputs","programs"],"all case lists, all switch values, all three traversals",
 "One PNG file exercises it; first-match order, default handling and errors in the three separate implementations are not compared.",
 ["encoder.go","decoder.go","structstack.go"],[("switc","encoder.go"),("switc","decoder.go"),("switcbits","structstack.go")],["Pack","Unpack","SizeOf"])
p("C12","Bad input and bad types give an error, never a crash",
 "Unpack, Pack, SizeOf and BitSize return an error instead of panicking whatever happens inside them - truncated or hostile data, unusable types or tags, failing expressions, errors or panics from custom codecs - and return a nil error exactly when nothing went wrong; a failed Pack returns no data. The message of the underlying failure is preserved.",
 ["inputs","programs","fault_sequences"],"all inputs, and all failures raised below the entry points",
 "Tests check four specific error messages; the guarantee ranges over every failure path.",
 ["packing.go"],[("deferred recover","packing.go"),("error panics","encoder.go, decoder.go, structstack.go, field.go")],["Pack","Unpack","SizeOf","BitSize"])
p("C13","Struct tags set exactly the options they name",
 "Parsing a struct tag accepts a comma-separated list of documented options and sets, for each option present, exactly that option to the given value, leaving every other option at its default, in any order of options; an empty tag sets nothing and - only marks the field ignored. Anything else - unknown or malformed options, a missing comma, bad identifiers or integers, a bit width of 0 or not below the type's width - is rejected with an error.",
 ["inputs"],"all tag strings",
 "Tests sample about 30 tag strings.",
 ["tag.go"],[("tagOptions.parse","tag.go"),("parseTag","tag.go")],["Pack","Unpack"])
p("C14","Type names in tags denote the corresponding Go types",
 "A type expression in a tag denotes exactly the Go type it spells: each primitive name its own type (byte as uint8, rune as int32, string as a byte slice), []T a slice, [N]T an array of exactly N, *T a pointer, recursively. Every other expression is rejected with an error.",
 ["inputs"],"all type expressions",
 "Tests sample about 20 type strings.",
 ["typestr.go"],[("typeOfExpr","typestr.go"),("typeMap","typestr.go")],["Pack","Unpack"])
p("C15","The field table mirrors the struct and its tags",
 "The layout derived from a struct type lists exactly its exported and blank fields that are not ignored, in declaration order, each with its own position, types and tag options; flags and expressions come from that field's own tag only; sizeof/sizefrom links connect exactly the named pair of fields. Links to missing fields, counts on non-sequence types and bit widths on unsuitable types are rejected.",
 ["programs"],"all struct types and tags",
 "Tests compare the tables of six struct types.",
 ["field.go"],[("fieldsFromStruct","field.go"),("Elem","field.go"),("fieldFromType","field.go"),("isTypeTrivial","field.go")],["Pack","Unpack","SizeOf"])
p("C16","Custom codecs are used, given the rest of the data, and obeyed",
 "A value whose type (or whose address's type) implements the packing, unpacking or sizing interface is handled by that method alone: it receives the remaining buffer and the byte order in force, the traversal continues with exactly the remainder it returns, its reported size is used for the field, and its error becomes the result of the call. Blank fields never invoke custom codecs.",
 ["inputs","programs"],"all implementations of the interfaces, value and pointer receivers",
 "Tests use two custom types.",
 ["encoder.go","decoder.go","field.go","structstack.go"],[("packer","encoder.go"),("unpacker","decoder.go"),("sizer/bitSizer/bitSizeUsingInterface","field.go")],["Pack","Unpack","SizeOf"])
p("C17","Expression operators compute Go's result in the operand type",
 "For operands of one numeric type T, every expression operator yields the value Go defines for T (wrap-around, truncated division, logical versus arithmetic right shift, shifts by any unsigned count) and a result of type T, comparisons and logical operators yield bool, + on strings concatenates, and operations Go does not define for the operand type are errors.",
 ["inputs"],"all operand values of all numeric, string and bool types, all operators",
 "Tests check a few sums and equalities per type; most operator/type pairs are never run.",
 ["expr/value.go"],[("val arithmetic, bitwise, shift, comparison methods","expr/value.go")],["expr.Eval","size=/if=/bits= expressions"])
p("C18","Untyped literals adopt the other operand's type",
 "When an operand is a literal without a type, it is converted to the type of the other operand with its value preserved (modulo the width of the target), two integer literals combine as int, and combinations Go would reject (different types, bool with number, float literal with integer) are errors; nil adopts pointer, slice, map and function types only.",
 ["inputs"],"all literal values and all target types",
 "Tests add the literal 10 to 20; other values, float literals and the failing combinations are hardly touched.",
 ["expr/value.go","expr/type.go"],[("coerce/coerce1/promote","expr/value.go"),("assignable","expr/type.go")],["expr.Eval"])
p("C19","Evaluation applies each operator to the right operands",
 "Evaluating a parsed expression applies, at each node, the operation that node denotes to the values of its operands in source order; && and || evaluate their right operand only if the left one does not decide; a conditional evaluates only the chosen branch and requires a bool; a call passes its arguments in order; unresolved names and ill-typed operations are returned as errors.",
 ["inputs","programs"],"all syntax trees and environments",
 "Tests evaluate about 16 expressions.",
 ["expr/eval.go"],[("evalnode/evalunary/evalbinary/evalternary/flattengroup","expr/eval.go"),("EvalProgram","expr/eval.go")],["expr.Eval","expr.EvalProgram"])
p("C20","Expressions parse with the documented precedence and associativity",
 "Parsing groups operators by precedence (postfix, then unary, then * / % << >> & &^, then + - | ^, then comparisons, then &&, then ||, then ?:, then comma), binary operators to the left and ?: to the right, each token producing its own operator; every token is consumed once and parsing ends on every input.",
 ["inputs"],"all token sequences",
 "Tests parse 7 expressions.",
 ["expr/parse.go"],[("parseexpr","expr/parse.go"),("accept/expect/readtoken","expr/parse.go")],["expr.Parse","expr.Eval"])
p("C21","The scanner splits text into the right tokens and always ends",
 "Scanning consumes the text left to right without losing or re-reading characters, skips blanks, takes the longest operator, and gives every operator, number, identifier, keyword, string and rune literal its own token kind and value; text that is not a token yields an error token. Scanning ends on every input, including unterminated literals.",
 ["inputs"],"all input texts",
 "Tests scan 9 valid texts; malformed and unterminated ones are not scanned at all.",
 ["expr/lex.go"],[("scan and helpers","expr/lex.go")],["expr.Parse","expr.Eval"])
p("C22","Names resolve to the right value",
 "A name in an expression denotes the first of: the end-of-data marker, a built-in package, the field of the innermost enclosing struct; resolver combinations return the first resolver's answer that exists, and unknown names resolve to nothing. Each built-in function name denotes the function of that name.",
 ["inputs","programs"],"all names and all stacks of resolvers and structs",
 "Tests look up three names in each resolver.",
 ["expr/env.go","expr/package.go","structstack.go","expr_19.go"],[("Resolve/TypeResolve","expr/env.go"),("structstack.Resolve","structstack.go"),("Symbol","expr/package.go"),("exprStdLib","expr_19.go")],["expr.Eval","struct expressions"])
p("C23","Shared caches are only touched under their locks",
 "The process-wide caches of struct layouts and expression types are read and written only while their lock is held in the right mode, every lock taken is released on every exit, and what is stored is complete and never modified afterwards, so concurrent calls see either no entry or a finished one; a cached answer equals the freshly computed one.",
 ["schedules","histories"],"all interleavings of concurrent Pack/Unpack/Eval calls (by lock-ownership reasoning)",
 "No test runs two goroutines.",
 ["field.go","expr/type.go"],[("cacheMutex","field.go"),("typemutex","expr/type.go")],["Pack","Unpack","expr.Eval"])
p("C24","Runtime types and expression types correspond",
 "The expression type of a runtime type has the same structure - kind, element, key, length, fields and signature, recursively - and converting it back gives the corresponding runtime type; types the language cannot represent are rejected.",
 ["programs"],"all Go types",
 "Tests touch int, int32 and one struct.",
 ["expr/type.go"],[("fromreflecttype/toreflecttype","expr/type.go"),("type constructors and accessors","expr/type.go")],["expr.TypeOf","expr.ValueOf"])
p("C25","Parent and root links point at the enclosing structs",
 "During packing, unpacking and sizing, a root field is set to the outermost struct and a parent field to the nearest enclosing struct (beyond the one containing it) whose pointer type fits, links occupy no space in the binary form, and the record of enclosing structs is exactly restored when a struct has been processed.",
 ["inputs","programs"],"all nestings",
 "Only the PNG format uses parent; root is untested.",
 ["structstack.go","encoder.go","decoder.go"],[("setancestor/root/ancestor/push/pop","structstack.go")],["Pack","Unpack","SizeOf"])
open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
