#!/usr/bin/env python3
"""The properties: single source of properties.jsonl and MANIFEST.json (run this file to regenerate both)."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENC, ENCH, ACN, ACNH, UPER, BER, XER, CRT = ['asn1crt/' + x for x in ('asn1crt_encoding.c', 'asn1crt_encoding.h', 'asn1crt_encoding_acn.c', 'asn1crt_encoding_acn.h', 'asn1crt_encoding_uper.c', 'asn1crt_encoding_ber.c', 'asn1crt_encoding_xer.c', 'asn1crt.c')]
RT = 'the test suite round-trips a few hundred sample values of generated types through the C runtime in one build configuration; '
PROOF_NOTE = ('Every function the property depends on is under contract and every obligation generated from the current source is discharged for all inputs '
    '(buffer size up to 256 MiB, any cursor, any value); callers are checked against callee contracts, and the callee contracts are discharged in the same run. '
    'Trusted: CBMC and its SAT solver, goto-cc semantics of C, two\'s complement wrap of signed arithmetic as compiled by gcc, libc models.')

P = {}
def prop(pid, title, statement, over, text, why, files, mech, observe, claimed=True, na=None, level='proof', note='', configs=('w8',), thorough_configs=(), assumptions=(), technique=None, state=()):
    P[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, claimed=claimed and not na, na=na, level=level, note=note,
                  configs=list(configs), thorough_configs=list(thorough_configs), assumptions=list(assumptions), technique=technique, state=list(state))

prop('P01', 'uPER constrained integers: minimal width, inverse, range-checked',
     'For every integer range (signed or unsigned, up to the full machine range) and every value inside it, encoding appends exactly the value\'s offset from the lower bound in the minimal number of bits for that range, and nothing when the range holds one value. '
     'Decoding those bits returns the same value and consumes exactly them. '
     'Decoding reports failure, instead of a value, when the bits denote a value outside the range or when too few bits are left.',
     ['inputs'], 'all ranges, all values, all cursor positions, all buffer contents and lengths',
     RT + 'no test covers every range/value/bit-offset combination, and none feeds truncated or out-of-range streams.',
     [ENC], [{'name': 'BitStream_Encode/DecodeConstraintWholeNumber, ...PosWholeNumber', 'where': ENC}, {'name': 'BitStream_Encode/DecodeNonNegativeInteger, GetNumberOfBitsForNonNegativeInteger', 'where': ENC}],
     ['bits appended to the buffer', 'cursor', 'decoded value', 'return value'])
prop('P03', 'Bit-level reads and writes: exact bits, exact cursor, nothing else',
     'Appending a bit, a partial byte, a byte, or a run of zero or one bits puts exactly those bits at the cursor, most significant first, advances the cursor by exactly their number, and leaves every earlier bit and every other byte of the buffer unchanged. '
     'Reading a bit, a partial byte or a byte returns exactly the bits at the cursor and advances by their number; peeking does not move the cursor. '
     'A read of more bits than are left reports failure.',
     ['inputs'], 'all values, all bit offsets, all buffer contents and lengths',
     RT + 'they never inspect the bits around the written ones nor the byte after the end of the buffer.',
     [ENC], [{'name': 'BitStream_Append*/Read*/PeekBit', 'where': ENC}], ['buffer bytes', 'cursor', 'return value'],
     state=[{'name': 'currentByte/currentBit', 'meaning': 'cursor; never past count*8 bits', 'where': 'asn1crt/asn1crt.h'}])

prop('P02', 'uPER unconstrained and semi-constrained integers: minimal octets, inverse',
     'A semi-constrained integer is encoded as one length octet followed by its offset from the lower bound in the minimal number of octets (at least one); an unconstrained integer as one length octet followed by its two\'s complement representation in the minimal number of octets. '
     'Decoding returns the same value for every 64-bit value and consumes exactly those octets; negative values are sign extended. '
     'Decoding reports failure when the length octet exceeds the machine integer size or when fewer octets are left than it announces.',
     ['inputs'], 'all values, all lower bounds, all cursor positions, all buffer contents and lengths',
     RT + 'no test covers every value/bit-offset combination, and none feeds truncated streams or every length octet.',
     [ENC], [{'name': 'BitStream_Encode/DecodeSemiConstraint(Pos)WholeNumber, ...UnConstraintWholeNumber', 'where': ENC}, {'name': 'GetLengthInBytesOfUInt/SInt', 'where': ENC}],
     ['bits appended to the buffer', 'cursor', 'decoded value', 'return value'])
prop('P08', 'ACN binary integers: exact wire layout and inverse for every size and endianness',
     'An ACN integer encoded with a fixed size of N bits (N from 1 to 64, or 8/16/32/64 in big or little endian) puts exactly its unsigned or two\'s complement representation in those N bits, in the declared byte order; with embedded length it puts one octet with the minimal octet count followed by those octets. '
     'The matching decoder returns the encoded value for every value that fits (negative values sign extended from N bits), consumes exactly the encoded bits, and reports failure when too few bits are left or the embedded length exceeds the machine integer. '
     'The MIL-STD-1553 mapping functions send 32 to 0 and 0 back to 32 and every other value to itself.',
     ['inputs'], 'all values, all sizes, all cursor positions, all buffer contents and lengths',
     RT + 'no test covers every value/size/bit-offset combination, and none feeds truncated streams.',
     [ACN], [{'name': 'Acn_Enc/Dec_Int_PositiveInteger_*, Acn_Enc/Dec_Int_TwosComplement_*', 'where': ACN}, {'name': 'Acn_Enc/Dec_Length, milbus_encode/decode, int2uint/uint2int', 'where': ACN}],
     ['bits appended to the buffer', 'cursor', 'decoded value', 'return value'])
prop('P11', 'ACN IEEE 754 reals: exact bit image, exact inverse',
     'Encoding a real as IEEE 754 single or double precision, big or little endian, puts exactly its 32 or 64 bit image (rounded to single precision for the 32 bit form) at the cursor in the declared byte order. '
     'Decoding returns the real with exactly the bit image read - including zeros of both signs, subnormals, infinities and NaN - consumes exactly those bits, and reports failure when fewer are left.',
     ['inputs'], 'all real values including special values, all cursor positions, all buffer contents and lengths',
     RT + 'a few ordinary reals at a few bit offsets; no special values, no truncated streams.',
     [ACN], [{'name': 'Acn_Enc/Dec_Real_IEEE754_32/64_big/little_endian(_fp32)', 'where': ACN}], ['bits appended to the buffer', 'cursor', 'decoded value', 'return value'])
prop('P12', 'ACN alignment, boolean and bit patterns',
     'Aligning to the next byte, word or double word advances the cursor to the next multiple of 8, 16 or 32 bits from the start of the buffer, by less than one such unit, writes nothing, and does not move a cursor that is already aligned. '
     'Reading a bit pattern consumes exactly its number of bits and reports a match exactly when all of them equal the pattern; decoding a boolean with a true and a false pattern yields true or false when the bits equal that pattern and failure when they equal neither; all of these fail when too few bits are left.',
     ['inputs'], 'all cursor positions, buffer contents and lengths, all patterns of up to 64 bits',
     RT + 'they reach only a few cursor positions and never feed bits that match neither pattern or differ in the last bit only.',
     [ACN], [{'name': 'Acn_AlignToNextByte/Word/DWord', 'where': ACN}, {'name': 'BitStream_ReadBitPattern, _ignore_value, BitStream_DecodeTrueFalseBoolean', 'where': ACN}], ['buffer bytes', 'cursor', 'decoded value', 'return value'],
     note='Alignment is proved for all inputs. The bit pattern readers are checked for all patterns of up to 64 bits (bounded: stated in the evidence), whole domain otherwise. ')
prop('P13', 'ACN deferred determinants: reserve, patch in place, consistency',
     'Reserving a determinant appends its width of zero bits and records where. Patching it writes exactly the value, in the determinant\'s encoding, over those bits wherever the cursor has moved meanwhile, leaves every other bit of the stream and the cursor unchanged, and remembers the value. '
     'Patching again with the same value succeeds and changes nothing; with a different value it fails with the consistency error and changes nothing. '
     'Distances between recorded positions equal the number of bits (octets, rounded up) between them.',
     ['inputs', 'histories'], 'all values, widths, encodings, recorded positions, cursor positions and surrounding buffer contents',
     RT + 'the deferred mode is not exercised over unaligned positions with nonzero neighbours, nor with contradicting values.',
     [ACNH, ACN], [{'name': 'Acn_InitDet_*/Acn_PatchDet_*', 'where': ACNH}, {'name': 'Acn_BitStream_DistanceInBits/Bytes', 'where': ACNH}], ['buffer bytes', 'cursor', 'AcnInsertedFieldRef', 'return value'],
     state=[{'name': 'AcnInsertedFieldRef', 'meaning': 'position, is_set, value of a determinant', 'where': ACNH}])
prop('P14', 'Narrow-width integer decoders agree with the full-width ones',
     'Every 8/16/32-bit variant of an integer decoder consumes the same bits as the full-width decoder and returns the same value when that value fits the narrow type; it reports failure when the full-width decoder does or when the value does not fit, instead of returning a truncated value.',
     ['inputs'], 'all stream contents, cursor positions and buffer lengths, all ranges',
     RT + 'no test feeds a value that does not fit the narrow type.',
     [ENC, ACN], [{'name': 'BitStream_DecodeConstraint(Pos)WholeNumber(U)Int8/16/32', 'where': ENC}, {'name': 'Acn_Dec_*(U)Int8/16/32', 'where': ACN}],
     ['cursor', 'decoded value', 'return value'])

prop('P16', 'BER tags, lengths, integers, booleans, null: exact octets, inverse, contained',
     'The BER encoders of tags, definite lengths, end-of-contents octets, integers, booleans and null append exactly the X.690 octets (minimal two\'s complement integer content, minimal length form, FF for true) and fail, staying inside the buffer, when there is no room for all of them. '
     'The decoders return the encoded value and consume exactly its octets, accept a tag in its primitive and constructed form only, and fail - never reading past the end of the buffer - when octets are missing, the tag differs, or the length does not suit the type or cannot be represented. '
     'Looking ahead for a tag or for end-of-contents does not move the cursor.',
     ['inputs'], 'all values, tags, buffer contents, lengths and cursor positions',
     'the test suite does not run the BER functions of the runtime at all.',
     [BER], [{'name': 'BerEncode/DecodeTag, BerEncodeLength*, BerDecodeLength, BerDecodeTwoZeroes', 'where': BER}, {'name': 'BerEncode/DecodeInteger, ...Boolean, ...Null, NextTagMatches, LA_Next_Two_Bytes_00', 'where': BER}],
     ['octets appended to the buffer', 'cursor', 'decoded value', 'return value', '*pErrCode'])

prop('P07', 'Octet and bit strings, with and without fragmentation: exact bits, exact inverse',
     'Encoding an octet string or bit string of n items, for every n, appends its length determinant - a constrained count when the size is constrained, otherwise the X.691 11.9 form with 16K to 64K fragments - and then exactly the items, bit by bit, at any bit offset; a fixed-size string has no determinant. '
     'Decoding yields the same count and the same items and consumes exactly those bits. '
     'Decoding reports failure, without writing outside the caller\'s array, when the announced size exceeds the maximum, when the bits are missing, or when a fragment header is invalid.',
     ['inputs'], 'all lengths (including several fragments), all items, all cursor positions, all buffer contents and lengths',
     RT + 'no test has a string of 16K items or more, inspects the neighbouring bits, or feeds truncated or oversized lengths.',
     [ENC], [{'name': 'BitStream_Encode/DecodeOctetString(_no_length/_fragmentation)', 'where': ENC}, {'name': 'BitStream_Encode/DecodeBitString, AppendBits, ReadBits, AppendByteArray, ReadByteArray', 'where': ENC}],
     ['bits appended to the buffer', 'cursor', 'decoded array', 'return value'],
     note='The content of the string is specified through an arbitrary watched bit of the stream and an arbitrary watched element of the array (universally quantified), loops by inductive loop contracts, so the length is unbounded. ' + PROOF_NOTE)

prop('P10', 'ACN strings: exact characters, exact terminator or length, exact inverse',
     'Encoding an ACN string of any length appends exactly its characters - 8 bits each, or each as its index in the alphabet in the minimal number of bits - preceded by its length in the minimal bits for the size range, or followed by the terminator, as the encoding says; a string longer than the maximum is cut at the maximum. '
     'Decoding yields the same characters, zero-terminated and zero-filled up to the maximum size, and consumes exactly those bits. '
     'Decoding reports failure, without writing outside the string, when bits are missing, the terminator does not come in time, or a length or character index is out of range.',
     ['inputs'], 'all strings of any length, all alphabets of up to 256 characters, all terminators, all cursor positions, all buffer contents and lengths',
     RT + 'no test feeds truncated or unterminated strings, strings of the maximum length plus one, or looks at the neighbouring bits.',
     [ACN, CRT], [{'name': 'Acn_Enc/Dec_String_Ascii_*', 'where': ACN}, {'name': 'Acn_Enc/Dec_String_CharIndex_*, Acn_Enc/Dec_IA5String_CharIndex_*', 'where': ACN}, {'name': 'GetCharIndex', 'where': CRT}],
     ['bits appended to the buffer', 'cursor', 'decoded string', 'return value'],
     note='Not under contract: Acn_Dec_String_Ascii_Null_Terminated_mult (multi-octet terminator, decoder side; its loop over memcmp is out of reach). The string is specified through an arbitrary watched bit of the stream and an arbitrary watched character (universally quantified), loops by inductive loop contracts, so the length is unbounded. ' + PROOF_NOTE)

prop('P09', 'ACN decimal integers (BCD, ASCII): exact digits and inverse, no silent overflow',
     'An ACN integer encoded in BCD or ASCII puts exactly its decimal digits, most significant first, 4 bits or one character each - left-padded with zeros to a fixed size, preceded by the digit count, or followed by the terminator (nibble F, or the given characters), with a leading sign character for signed ASCII forms. '
     'The matching decoder returns the same value, for every 64-bit value that fits the form, and consumes exactly those digits. '
     'Decoding reports failure, instead of a wrong value, when a digit is no decimal digit, the sign is missing, the number does not fit 64 bits, or bits are missing.',
     ['inputs'], 'all 64-bit values, all sizes up to 100 digits, all terminators of up to 10 characters, all cursor positions, all buffer contents and lengths',
     RT + 'no test covers every number of digits, 19 and 20 digit values, non-digits, or truncated digits.',
     [ACN], [{'name': 'Acn_Enc/Dec_Int_BCD_ConstSize/VarSize_LengthEmbedded/VarSize_NullTerminated', 'where': ACN}, {'name': 'Acn_Enc/Dec_UInt/SInt_ASCII_*', 'where': ACN}],
     ['bits appended to the buffer', 'cursor', 'decoded value', 'return value'],
     note='Decimal notation is specified by a ghost fold over the units of the stream (value = 10 * value + digit, one unit at a time), loops by inductive loop contracts. Assumed as arithmetic: the digits and quotients of a 64-bit number (q[i] = 10 q[i+1] + d[i], d[i] <= 9, q[i] = 0 exactly when the number is below 10^i). ' + PROOF_NOTE)

prop('P06', 'REAL: exact binary encoding, exact inverse for every double',
     'Encoding a real appends a length octet and the X.690 8.5 octets of exactly that value: nothing for plus zero, one octet for minus zero, the infinities and NaN, otherwise sign, base 2, the minimal octets of the exponent and of the integer mantissa. '
     'Decoding returns the real with exactly that value for every double - subnormals, the smallest and largest, zeros of both signs, infinities, NaN - and for every other binary encoding (base 2, 8, 16, scaled) whose value a double represents exactly; it consumes exactly the announced octets. '
     'Decoding reports failure for decimal and malformed encodings, for exponents or mantissas too long to represent, and when octets are missing.',
     ['inputs'], 'all double values, all encodings (values: of up to 11 octets), all cursor positions, all buffer contents and lengths',
     RT + 'they round-trip a few ordinary reals and feed no foreign, malformed or truncated encoding.',
     [ENC], [{'name': 'BitStream_EncodeReal, CalculateMantissaAndExponent', 'where': ENC}, {'name': 'BitStream_DecodeReal(_fp32), DecodeRealAsBinaryEncoding, GetDoubleByMantissaAndExp', 'where': ENC}],
     ['bits appended to the buffer', 'cursor', 'decoded value', 'return value'],
     note='The scaling loops carry loop contracts (after k steps the value is exactly mantissa * 2^k), in CBMC\'s bit-precise IEEE 754 semantics, round to nearest. For content of more than 11 octets only the cursor and memory safety are claimed. ' + PROOF_NOTE)

prop('P17', 'XER: well-formed XML in, the same value out',
     'The XER encoders write well-formed XML for every value and stay inside the buffer; the decoders return the encoded value, and fail on malformed, truncated or oversized elements without writing outside their buffers.',
     ['inputs'], 'all values, all documents', 'the test suite does not run the XER functions of the runtime at all.', [XER], [{'name': 'Xer_Encode*/Xer_Decode*', 'where': XER}], ['bytes written', 'decoded value', 'return value'],
     na='no contract within reach expresses it: the functions are a hand-written XML tokenizer and printf-style formatting over NUL-terminated strings of unbounded length, with sprintf/atof/strcat of the C library as the semantics of values; a contract would assume the library functions that decide the property')
prop('P19', 'Bit streams larger than the buffer: streaming mode equals one-shot mode',
     'With push and fetch callbacks installed and any buffer size, encoding delivers the same octets in the same order as encoding into one large buffer, and decoding from a source delivered in pieces gives the same values as decoding from one buffer.',
     ['inputs', 'histories'], 'all buffer sizes, piece sizes and sequences of operations', 'no test installs the callbacks.', [ENC, ENCH], [{'name': 'bitstream_push_data_if_required, bitstream_fetch_data_if_required', 'where': ENC}], ['octets handed to the callback', 'decoded value'],
     na='the contracts here are stated for streams without callbacks; the callbacks are defined by the application (pushData/fetchData are unresolved externals of the library), so their effect on the buffer, which decides the property, could only be assumed')
prop('P21', 'The compiler: generated code encodes every type as its definition says',
     'For every accepted ASN.1/ACN grammar the compiler emits C, Ada, Scala or Python code whose encoders and decoders produce and accept exactly the encodings the definition prescribes, which are inverse to each other and reject values outside the constraints; grammars it cannot handle are rejected with a message.',
     ['programs', 'inputs'], 'all grammars, all values', 'the test suite compiles a fixed list of grammars and round-trips sample values.', ['FrontEndAst', 'BackendAst', 'StgC'], [{'name': 'F# compiler pipeline', 'where': 'BackendAst'}], ['generated code'],
     na='the compiler is F# and string templates, for which there is no deductive verifier (and it does not even build offline here: its NuGet packages are missing); generated code exists per grammar only, so a property over all grammars is out of reach of contracts on functions')
prop('P22', 'The Ada run-time: same encodings as the C run-time, no run-time errors',
     'The SPARK run-time library produces and accepts the same encodings as the C one and raises no run-time error on any input.',
     ['inputs'], 'all values, all buffers', 'it is not built or run by the tests of this sandbox.', ['ADA_RTL2'], [{'name': 'adaasn1rtl packages', 'where': 'ADA_RTL2'}], ['octets', 'decoded values'],
     na='it carries SPARK contracts already, but their verifier (gnatprove) and the GNAT compiler are not installed; the same holds for the Scala (stainless) and Python (nagini) run-times')

def manifest():
    checks, na = [], []
    for pid, d in sorted(P.items()):
        if d['claimed']:
            checks.append({'property': pid, 'quick_cmd': 'python3 ccv/ccv.py check %s' % pid, 'thorough_cmd': 'VERIF_TIER=thorough python3 ccv/ccv.py check %s' % pid,
                           'evidence_file': 'evidence/%s.json' % pid,
                           'technique': d['technique'] or 'contract-based deductive verification of the C functions (self-generated contract VCs discharged by CBMC, callees replaced by their contracts)',
                           'level': d['level'], 'level_note': d['note'] or PROOF_NOTE})
        else: na.append({'property': pid, 'reason': d['na'] or 'check not built yet'})
    m = {'version': 1, 'setup_cmd': 'python3 ccv/ccv.py setup', 'checks': checks, 'not_applicable': na}
    if HOOKS: m['hooks'] = HOOKS
    return m
HOOKS = {'guard': 'ASN1SCC_VERIF', 'enable': 'goto-cc -DASN1SCC_VERIF -include /verif/contracts/loops.h (only the compilations that discharge loop contracts)', 'source_commits': ['c446607', '9bd56c9', '75e951b', '588135f', 'd71e5a1', '56386a4', '39ac692']}

def jsonl():
    for pid, d in sorted(P.items()):
        yield {'id': pid, 'title': d['title'], 'statement': d['statement'], 'quantifier': {'over': d['over'], 'text': d['text']}, 'why_tests_cant': d['why'],
               'anchors': {'files': d['files'], 'state': d['state'], 'mechanism': d['mech'], 'observe_at': d['observe'], 'hook_needed': None}}

if __name__ == '__main__':
    import jsonschema
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json')); ms = json.load(open('/root/.vp/MANIFEST.schema.json'))
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for r in jsonl(): jsonschema.validate(r, sch); f.write(json.dumps(r) + '\n')
    m = manifest(); jsonschema.validate(m, ms)
    json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(VERIF, 'MANIFEST.json'), 'a').write('\n')
