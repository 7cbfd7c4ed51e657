#!/usr/bin/env python3
"""Writes properties.jsonl (the single place the property texts are kept)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})

prop('P01', 'Base64 coding is RFC 4648 and exactly invertible',
 'Encoding any byte sequence, of any length, produces exactly its RFC 4648 Base64 text, including the padding. Decoding accepts exactly the well-formed texts (a multiple of four symbols, padding only as the last one or two symbols) and yields the original bytes; every other text is reported as a failure. No input makes the coder read or write outside its buffers.',
 ['inputs'], 'every byte string as input of the encoder and of the decoder, of any length, including those that span its internal block size',
 'The tests encode a few strings and one or two files; the table lookups, the padding rules and the block boundary arithmetic depend on every byte value and on the length modulo 3, 4 and the block size.',
 ['fly/coders/base64/base64_coder.cpp', 'fly/coders/base64/base64_coder.hpp'],
 [('block loop and chunk coding', 'fly/coders/base64/base64_coder.cpp')], ['encode_string / decode_string'])

prop('P02', 'Bit streams return exactly the bits that were written',
 'A sequence of fields of any widths from 1 to 64 bits written to a bit stream and finished is read back by any sequence of reads, of equal or of different widths, as the same bit string, most significant bit first. The end of the stream is exact: padding bits are never returned as data, peeking never consumes, discarding consumes exactly the number of bits asked for, and reads past the end return only the bits that exist. The finished flag and the error state are reported truthfully, and a stream with an invalid header is rejected.',
 ['inputs', 'histories'], 'every sequence of field widths and values on the writing side and every sequence of reads, peeks and discards on the reading side, at every alignment of the internal buffer',
 'A unit test samples a few widths and alignments; the buffer refill and flush arithmetic has a distinct case for each combination of fill level and field width.',
 ['fly/types/bit_stream/bit_stream_reader.hpp', 'fly/types/bit_stream/bit_stream_reader.cpp', 'fly/types/bit_stream/bit_stream_writer.hpp', 'fly/types/bit_stream/bit_stream_writer.cpp', 'fly/types/bit_stream/detail/bit_stream.hpp'],
 [('write_bits / flush / finish', 'fly/types/bit_stream/bit_stream_writer.cpp'), ('peek_bits / discard_bits / refill_buffer', 'fly/types/bit_stream/bit_stream_reader.hpp')])

prop('P03', 'Huffman coding is lossless and its decoder is safe on any bytes',
 'Decoding the Huffman encoding of any byte sequence yields that sequence, for every supported chunk size and code length limit, or encoding reports failure because the limits cannot represent the input. No code is longer than the configured maximum and no code is a prefix of another. Decoding any byte sequence whatsoever terminates, stays inside its buffers and either fails or produces output.',
 ['inputs', 'configurations'], 'every input byte sequence, every coder configuration within the documented ranges, and every byte sequence (valid or not) given to the decoder',
 'Tests encode a few texts with one or two configurations; code lengths, limits and tables depend on the whole symbol distribution, and malformed input has an unbounded space.',
 ['fly/coders/huffman/huffman_encoder.cpp', 'fly/coders/huffman/huffman_decoder.cpp', 'fly/coders/huffman/types.cpp', 'fly/coders/huffman/types.hpp'],
 [('length limiting and canonical codes', 'fly/coders/huffman/huffman_encoder.cpp'), ('header and code decoding, prefix table', 'fly/coders/huffman/huffman_decoder.cpp')])

prop('P04', 'Codepoint encoding and decoding are exact for UTF-8, UTF-16 and UTF-32',
 'Every Unicode scalar value has exactly one encoding in each of UTF-8, UTF-16 and UTF-32, and decoding that encoding returns the value and consumes exactly its code units. Every sequence that does not begin with such an encoding (overlong forms, stray or missing continuation bytes, surrogates that are unpaired or encoded, values above U+10FFFF, truncated sequences) is rejected, and values that are not scalar values cannot be encoded. Decoding never reads past the end of the input.',
 ['inputs'], 'every codepoint and every sequence of code units of each of the three encodings',
 'The tests enumerate selected invalid sequences per encoding; acceptance is a predicate over up to four bytes and any truncation point.',
 ['fly/types/string/detail/unicode.hpp'],
 [('decode_codepoint / encode_codepoint and their UTF-8, UTF-16 parts', 'fly/types/string/detail/unicode.hpp')])

prop('P05', 'String validation and encoding conversion agree with Unicode',
 'A string is reported valid exactly when it is a concatenation of well-formed codepoint encodings. Conversion between any two encodings succeeds exactly on valid strings, preserves the sequence of codepoints, and converting back yields the original string.',
 ['inputs'], 'every string of every length in each encoding',
 'The whole-string statement is an induction over the length; tests hold a handful of strings.',
 ['fly/types/string/detail/unicode.hpp', 'fly/types/string/string.hpp'],
 [('validate_encoding / convert_encoding loops', 'fly/types/string/detail/unicode.hpp')])

prop('P06', 'Escaping and unescaping of codepoints are inverse and strict',
 'Escaping a codepoint keeps printable ASCII characters as they are and writes every other codepoint as the requested escape form, with the documented digits, digit case and surrogate pairs. Unescaping that text returns the same codepoint and consumes exactly the escape. Escape sequences that are incomplete, are not hexadecimal, or denote an unpaired surrogate or a value above the Unicode range are rejected.',
 ['inputs'], 'every codepoint, every prefix form and digit case, and every character sequence given to unescaping',
 'The tests cover selected codepoints; the digit and surrogate arithmetic ranges over the whole codepoint space.',
 ['fly/types/string/detail/unicode.hpp', 'fly/types/string/string.hpp'],
 [('escape_codepoint / unescape_codepoint', 'fly/types/string/detail/unicode.hpp')])

prop('P07', 'Character classification matches the ASCII tables for every character',
 'For each of the character types, each classification function accepts exactly the characters of its class in the default C locale, and changing case maps exactly the 26 letters and leaves every other character unchanged. This holds for every value of the character type, including negative and non-ASCII values.',
 ['inputs'], 'every value of char, wchar_t, char8_t, char16_t and char32_t',
 'The existing tests loop over the 8-bit range; wide characters and negative values are outside it.',
 ['fly/types/string/detail/classifier.hpp'],
 [('is_alpha, is_digit, to_upper, ...', 'fly/types/string/detail/classifier.hpp')])

prop('P08', 'The lexer never reads outside its text and reports exact tokens',
 'At every point the lexer position is at most the length of its text, and no operation reads outside the text. A failed consume leaves the position unchanged; a successful one consumes exactly the characters of the token, whitespace skipping consumes exactly the maximal run, and consumed decimal and hexadecimal numbers have exactly the value of the maximal digit run or are refused when they do not fit.',
 ['inputs', 'histories'], 'every text and every sequence of lexer operations on it',
 'The tests run fixed sequences on fixed texts; overflow and end-of-text interact with every digit string and position.',
 ['fly/types/string/lexer.hpp'],
 [('consume_if / consume_number / consume_hex_number', 'fly/types/string/lexer.hpp')])

prop('P09', 'IPv4 addresses parse exactly and print canonically',
 'Printing any IPv4 address gives its dotted decimal form and parsing that text gives back the same address. Parsing accepts exactly one to four decimal numbers separated by dots, each but the last at most 255 and the last filling the remaining bytes (as in inet_aton), with the address they denote, and rejects every other text. Byte order conversions preserve the address.',
 ['inputs'], 'every 32-bit address and every text',
 'The tests enumerate a list of good and bad texts; acceptance is a language over unbounded digit strings.',
 ['fly/net/ipv4_address.hpp'], [('from_string and string conversion', 'fly/net/ipv4_address.hpp')])

prop('P10', 'IPv6 addresses parse exactly and print in shorthand form',
 'Printing any IPv6 address gives its eight groups in lower case hexadecimal without leading zeros, separated by colons, with the first run of zero groups (of one group or more) written as "::", and parsing that text gives back the same address. Parsing accepts exactly eight groups separated by colons, or fewer with one "::" that stands for the missing (one or more) zero groups, where a group is one or more hexadecimal digits of a value up to ffff, and yields the address denoted; every other text is rejected. An address holds exactly the bytes it is made of, and addresses compare as their bytes do.',
 ['inputs'], 'every 128-bit address and every text',
 'The shortening rule depends on all 256 zero patterns of eight groups and the grammar is open-ended; tests hold a list of examples.',
 ['fly/net/ipv6_address.hpp'], [('from_string and string conversion', 'fly/net/ipv6_address.hpp')])

prop('P11', 'Network endpoints print and parse without loss',
 'Printing an endpoint and parsing the text gives back the same address and port, for every address and port of both families. Parsing accepts exactly an address in its family\'s notation followed by a separator and a decimal port from 0 to 65535, and rejects everything else.',
 ['inputs'], 'every address, every port and every text', 'Tests use a few addresses and ports.',
 ['fly/net/endpoint.hpp'], [('from_string and string conversion', 'fly/net/endpoint.hpp')])

prop('P12', 'Formatting renders integers and strings exactly as specified',
 'For every integer value and every combination of sign, alternate form (of the binary, octal and hexadecimal presentations), zero padding, fill, alignment, width and presentation type, formatted output is the text the format specification defines: sign, prefix, digits in the right base and case, padded on the proper side to at least the width. Strings are cut to the precision and padded to the width. Literal text, escaped braces and positional arguments appear in order.',
 ['inputs', 'programs'], 'every integer value of every width and every specifier combination',
 'Tests sample values per specifier; the interaction of sign, prefix, zero padding, width and extreme values is a large product.',
 ['fly/types/string/formatters.hpp', 'fly/types/string/detail/format_specifier.hpp', 'fly/types/string/detail/format_string.hpp', 'fly/types/string/format.hpp'],
 [('integer and string formatters', 'fly/types/string/formatters.hpp')])

prop('P13', 'String utilities compute exactly their documented results',
 'Splitting, trimming, removing, replacing, joining and wildcard matching return exactly what their documentation defines for every string and argument, including empty strings, empty patterns, overlapping occurrences and patterns longer than the text. They terminate and do not access memory outside their arguments.',
 ['inputs'], 'every string, pattern, delimiter and count',
 'Tests use short fixed examples; overlap and boundary behaviour needs all strings.',
 ['fly/types/string/string.hpp'], [('split, trim, replace_all, remove_all, wildcard_match, join', 'fly/types/string/string.hpp')])

prop('P14', 'Conversion from text to numbers is exact or refused',
 'Converting a string to an integer type returns exactly the value the whole string denotes in decimal, or nothing when the string is not such a numeral or the value does not fit the type. Literal parsing of binary, octal, decimal and hexadecimal integers accepts exactly the valid digit strings that fit, with their value.',
 ['inputs'], 'every string and every integer type', 'Tests probe the limits of each type; the digit loop has to hold for all digit strings.',
 ['fly/types/string/detail/converter.hpp', 'fly/types/string/string.hpp', 'fly/types/numeric/detail/literal_parser.hpp'],
 [('convert', 'fly/types/string/detail/converter.hpp'), ('parse literal', 'fly/types/numeric/detail/literal_parser.hpp')])

prop('P15', 'JSON strings are read and written without loss and strictly',
 'A JSON value created from or parsed into a string holds exactly the codepoints that the text denotes: escapes are decoded, raw control characters, unknown escapes, unpaired surrogates and malformed UTF-8 are refused. Serializing a string and parsing the result yields the same string, for every valid string.',
 ['inputs'], 'every string content and every escape sequence', 'Tests sample escapes; correctness is per character and inductive over the string.',
 ['fly/types/json/json.cpp'], [('validate_string, read_escaped_character, write_escaped_character', 'fly/types/json/json.cpp')])

prop('P16', 'JSON comparison is a consistent order by value',
 'Two JSON numbers are equal exactly when their integer values are equal, whatever their stored signedness, and ordering agrees with the integer values. For all values without floating point parts equality is reflexive, symmetric and transitive, ordering is irreflexive and transitive, and exactly one of less, equal and greater holds between two values of comparable type.',
 ['inputs'], 'every pair and triple of JSON values without floating point parts',
 'Tests compare selected pairs; consistency is a statement over all pairs of signed and unsigned 64-bit values.',
 ['fly/types/json/json.cpp'], [('operator== and operator<', 'fly/types/json/json.cpp')])

prop('P17', 'The JSON parser accepts exactly its grammar',
 'With default features the parser accepts exactly the texts of the RFC 8259 grammar (any value type at the top level) and reports failure for every other text; each optional feature (comments, trailing comma, any type) adds or removes exactly what its documentation says. Accepted text gives the value it denotes: numbers with their exact integer value when they fit, the last of duplicate keys, members and elements complete and in order. No text crashes the parser.',
 ['inputs', 'configurations'], 'every text and every feature combination', 'The tests use the JSONTestSuite and a list of examples; the grammar is infinite and features interact.',
 ['fly/parser/json_parser.cpp', 'fly/parser/json_parser.hpp', 'fly/parser/parser.cpp'], [('state machine of the parser', 'fly/parser/json_parser.cpp')])

prop('P18', 'A JSON document survives serialization and parsing',
 'Serializing any JSON value made of objects, arrays, strings, integers, booleans and null gives a valid JSON text, and parsing it yields an equal value. Accessing, inserting, erasing and merging members and elements have the effect of the same operation on a plain map or sequence, and invalid accesses raise an error and leave the value unchanged.',
 ['inputs', 'histories'], 'every JSON value and every sequence of operations on it', 'Tests check selected documents and single operations.',
 ['fly/types/json/json.cpp', 'fly/types/json/json.hpp', 'fly/parser/json_parser.cpp'], [('serialization and accessors', 'fly/types/json/json.cpp')])

prop('P19', 'INI files parse exactly to their sections and values',
 'For every text, the INI parser either refuses it as a whole or yields exactly the sections and name/value pairs written in it, with surrounding blanks and balanced quotes removed, comments and blank lines ignored and later definitions replacing earlier ones. Text with a malformed section header, a pair outside a section, a missing delimiter, or imbalanced quotes is refused.',
 ['inputs'], 'every text', 'Tests hold about thirty small files.',
 ['fly/parser/ini_parser.cpp'], [('line classification and trimming', 'fly/parser/ini_parser.cpp')])

prop('P20', 'Endian conversion is an exact byte reversal',
 'Swapping the byte order of any integer value reverses its bytes, swapping twice gives the value back, and conversion to or from a byte order equal to that of the machine leaves the value unchanged.',
 ['inputs'], 'every value of every supported integer type', 'Tests check one value per type.',
 ['fly/types/numeric/endian.hpp', 'fly/types/numeric/detail/byte_swap.hpp'], [('byte_swap', 'fly/types/numeric/detail/byte_swap.hpp')])

prop('P21', 'Concurrent containers lose, duplicate and reorder nothing',
 'Each operation of the concurrent queue and stack has its effect entirely while it holds the container lock, and that effect is exactly the one of a sequential first-in first-out queue or last-in first-out stack. Hence every element pushed is popped at most once, none is lost or invented, and a timed pop fails only when the container is empty.',
 ['histories', 'schedules'], 'every sequence of operations, by any number of threads', 'Tests run a few threads once; a lost update needs a particular interleaving.',
 ['fly/types/concurrency/detail/concurrent_container.hpp', 'fly/types/concurrency/concurrent_queue.hpp', 'fly/types/concurrency/concurrent_stack.hpp'],
 [('push / pop under the mutex', 'fly/types/concurrency/detail/concurrent_container.hpp')])

prop('P22', 'A sequenced task runner runs its tasks one at a time in posting order',
 'Tasks posted to a sequenced task runner start in the order they were posted and never overlap, and every posted task is eventually handed to the task manager once the task before it completed. A parallel task runner hands every task over immediately.',
 ['schedules', 'histories'], 'every interleaving of posting and completing tasks', 'Tests post a few tasks and observe one schedule.',
 ['fly/task/task_runner.cpp', 'fly/task/task_runner.hpp'], [('post_task_internal / task_complete', 'fly/task/task_runner.cpp')])

prop('P23', 'Log points are filtered, numbered and truncated exactly',
 'A logger delivers exactly the log points at or above its level, in order, with consecutive indices, and with messages cut to the configured maximum size. A file sink writes every delivered point to exactly one file and starts a new file when the configured size is exceeded.',
 ['histories', 'configurations'], 'every sequence of log points and every configuration', 'Tests log a few points.',
 ['fly/logger/logger.cpp', 'fly/logger/detail/file_sink.cpp'], [('log, sinks', 'fly/logger/logger.cpp')])

prop('P24', 'Timed and posted tasks run exactly once, not before their time',
 'A task posted with a delay runs exactly once and not before the delay has passed unless its owner is gone, and stopping the task manager waits for the running tasks.',
 ['schedules'], 'every schedule of worker threads', 'Tests observe a single schedule.',
 ['fly/task/task_manager.cpp'], [('timer and worker threads', 'fly/task/task_manager.cpp')])

prop('P25', 'Configuration lookups fall back to the default unless the value converts',
 'Looking up a configuration value returns the stored value when a value of that name is present and converts to the requested type without loss, and otherwise exactly the given default.',
 ['inputs', 'configurations'], 'every stored document, name, type and default', 'Tests read a few values.',
 ['fly/config/config.hpp'], [('get_value', 'fly/config/config.hpp')])

prop('P26', 'Configuration files are reloaded whenever they change',
 'After a change to the configuration file has been written, every configuration eventually reflects the new contents, and a malformed file empties the configuration rather than leaving a mixture.',
 ['histories', 'schedules'], 'every sequence of file changes and monitor events', 'Tests change a file once or twice.',
 ['fly/config/config_manager.cpp'], [('update_config', 'fly/config/config_manager.cpp')])

prop('P27', 'Path monitors report every creation, change and deletion',
 'Every creation, change and deletion of a watched file is reported to its callback, and none is reported for files that are not watched.',
 ['histories', 'schedules'], 'every sequence of file operations', 'Tests perform a few operations with long waits.',
 ['fly/path/path_monitor.cpp', 'fly/path/nix/path_monitor_impl.cpp'], [('read_events / handle_events', 'fly/path/nix/path_monitor_impl.cpp')])

prop('P28', 'Sockets deliver the byte stream or datagrams unchanged',
 'Data sent over a connected socket arrives complete and in order whatever sizes the kernel accepts or returns, and asynchronous operations complete exactly once.',
 ['fault_sequences', 'schedules'], 'every sequence of partial sends, partial receives and errors of the operating system', 'Loopback tests see hardly any partial transfers.',
 ['fly/net/socket/tcp_socket.cpp', 'fly/net/socket/detail/nix/socket_operations.cpp'], [('send / receive loops', 'fly/net/socket/detail/nix/socket_operations.cpp')])

prop('P29', 'JSON floating point values survive serialization',
 'Serializing a finite floating point JSON value and parsing the text yields the same value.',
 ['inputs'], 'every finite value of the floating point type', 'Tests print a few values.',
 ['fly/types/json/json.cpp', 'fly/types/string/formatters.hpp'], [('float formatting', 'fly/types/string/formatters.hpp')])

d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(d, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
