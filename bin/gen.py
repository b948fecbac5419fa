#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (deterministic)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
sys.dont_write_bytecode = True
from checks import CHECKS
I, H, S, F, C = 'inputs', 'histories', 'schedules', 'fault_sequences', 'configurations'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, note=note, na=na))


MSG = ['src/message.c', 'src/buffer.h']
prop('C01', 'A message that is written is read back unchanged',
     'Writing a protocol message and reading the resulting bytes on the other side yields the same message type, the same positional arguments in the same order and the same set of named values, byte for byte. This holds for every text that can be carried, including quotes, backslashes, newlines, blanks and bytes above 127; only positional arguments that themselves start like a named value (a name followed by =) are excluded. Reading leaves nothing behind that affects the next message.',
     [I, H], 'all message types, all numbers of arguments and named values, all byte strings without NUL as arguments and values, all valid names, all sequences of messages',
     'The tests exchange a few messages with plain ASCII values; they never carry escapes, high bytes or text longer than one buffer.',
     MSG, 'write_message/write_buffer_escaped quote and escape; the read_message state machine unquotes; string_buffer and string_list hold the pieces',
     'Proof of write_message, write_buffer_escaped, write_buffer, read_message, read_character, the string buffers and lists against one grammar of messages, for all inputs and lengths; the two halves meet in that grammar.')
prop('C02', 'Messages are found in any stream, however it is split or surrounded',
     'Reading returns exactly the messages contained in the byte stream, in order and with their content, regardless of how the stream is split into pieces by the operating system and of other text lines between them. A line that is not a message or is a malformed message (unknown type, text behind a closing quote, a dangling escape) affects neither the message after it nor its arguments and named values. The end of the stream is reported as such and never as a message.',
     [I, S], 'all byte streams made of noise lines, malformed messages and messages in quoted and unquoted notation; all splits into reads',
     'The tests only ever read well-formed messages from a peer built with the same library; noise, malformed lines and split reads do not occur.',
     MSG, 'read_message states, PARSE_STATE_PASS, reset on prefix completion, read_character window',
     'Proof of read_message against a generator of all streams (noise, malformed lines, then a message) and of read_character for all splits; no bound on length.')
prop('C03', 'Everything that is sent reaches the descriptor once, in order, and the log',
     'Every byte of an outgoing message is handed to the output descriptor exactly once and in order, no matter how few bytes each write accepts. The message on the wire is the prefix, the type, each argument in quotes and in order, then each named value in quotes, then one newline, with quotes, backslashes and newlines inside values escaped. If logging is enabled the log receives the same bytes.',
     [I, F], 'all messages and all sequences of short writes of the descriptor (file or socket)',
     'On the test machine pipes and sockets take every write whole, so the partial write paths never run.',
     MSG, 'write_buffer retry loop, write_buffer_escaped, OUTPUT_STRING/OUTPUT_ESCAPED, LOG_BUFFER',
     'Proof of write_buffer (any sequence of short writes), write_buffer_escaped and write_message for all inputs.')

prop('C05', 'Base64 text of binary data decodes to the same bytes and announced length',
     'Encoding any byte sequence gives the standard Base64 text of exactly the announced length, and decoding that text gives the same bytes and the same length. For any text, well formed or not, decoding uses exactly the leading characters of the Base64 alphabet, and the announced length is exactly the space that decoding needs, so a buffer of that size is never overrun.',
     [I], 'all byte sequences and all texts, of every length and padding',
     'The tests decode one picture that the same code has encoded; other lengths modulo 3, missing padding and malformed text do not occur.',
     ['src/base64.c'], 'base64encode, base64encodelen; base64decode, base64decodelen',
     'Proof of the four functions with loop contracts against RFC 4648 for all lengths, and of the round trip as a lemma over their contracts.')
prop('C06', 'Images survive their text form and keep their rows and sizes',
     'A path, a picture in memory (gray8, gray16 or rgb, of any size) or an encoded JPEG or PNG file that is turned into its text form and back is the same image: type, size, format and every byte. The same holds for an address whose scheme is not one that the notation uses itself (file, image, data). A text that announces a memory image is accepted only if format and sizes are valid and the data has exactly the announced size; every other one is refused. Rows of a memory image lie one behind the other and inside of the data, whether they are read or written.',
     [I], 'all paths, addresses, pictures of any width, height and format, encoded files of any length; all texts as input of the decoder',
     'The tests send two or three small pictures; sizes that overflow, other formats, odd lengths and wrong announcements do not occur.',
     ['src/trax.c', 'src/base64.c'], 'image_encode; image_decode with parse_uri, strntok and the size check; trax_image_create_*; trax_image_get_memory_row and trax_image_write_memory_row',
     'Proof of encoder, decoder and the image functions for all contents and lengths over the contracts of Base64 and the C library; the arithmetic of the size check is proved as its own lemma, for all sizes in the thorough check and up to 1000 by 1000 (labelled bounded) in the quick one.')
REG = ['src/region.c', 'src/region.h', 'src/trax.c']
prop('C07', 'Regions survive their text form, and text that is no region is refused',
     'The text of a special region, a rectangle, a polygon or a mask reads back as a region of the same type with the same code, the same coordinates (to four decimal places) or exactly the same position, size and pixels, for masks of any content. Text with the wrong number of values, with values that do not fit an int where one is needed, or with an impossible mask size is refused, never half accepted. Undefined numbers give the special region, with the code of the fourth value if it is the only one that is defined in old notation.',
     [I], 'all codes, coordinates, numbers of points and masks of any size and content; all texts',
     'The tests convert a few fixed rectangles and polygons; masks that start or end with pixels, runs across rows, undefined numbers and refused texts do not occur.',
     REG, 'region_string run lengths; region_parse with __parse_uri_prefix and _parse_sequence; trax_region_encode and trax_region_decode',
     'Proof of the writer, the parser and the constructors over the contracts of the C library number conversions.')
prop('C08', 'Converting and copying a region keeps its type, place and extent',
     'A region that is copied or converted to its own type has the same code, coordinates or pixels in memory of its own; releasing or changing one never affects the other. Converted to a rectangle, a polygon or mask gives the smallest rectangle around its points or set pixels. A rectangle as a polygon has the first and the last pixel in each direction as corners. As a mask, a rectangle or polygon covers exactly its own extent. A special region converts to no other type, and every other region becomes the default code.',
     [I], 'all regions of all types with any number of points and any size of mask; all target types',
     'The tests convert a few small regions between polygons and rectangles; masks, copies that are changed afterwards, and special regions do not occur.',
     REG, 'region_convert; clone_polygon and allocate_polygon; region_create_*; region_release',
     'Proof of region_convert for each pair of types and of the constructors, copies and release, for all numbers of points.')
prop('C09', 'The bounds of a region are the smallest box around it',
     'The bounds of a polygon contain every point and each of the four is attained by a point. Bounds of a mask do the same for the pixels that are set, at the position of the mask. Bounds of a rectangle are its first and last column and row. A special region has unlimited bounds. Rounding bounds goes outwards by less than one, intersection and union of bounds are those of the boxes.',
     [I], 'all regions with finite coordinates, any number of points, masks of any size, position and content with at least one pixel',
     'The tests never ask for bounds of masks, of negative positions or with single pixels.',
     REG, 'compute_bounds_polygon and compute_bounds_mask; region_compute_bounds; bounds_round, bounds_intersection, bounds_union',
     'Proof of all bounds functions with loop contracts for any number of points and any size of mask.')
prop('C10', 'Overlap is the share of common pixels within the limits',
     'The overlap of two regions is the number of pixels that both cover within the limits, divided by the number of pixels that at least one of them covers; a number from 0 to 1, the same in both orders, 1 for equal regions and 0 for regions without common pixels, without a shape or outside of the limits.',
     [I], 'all pairs of regions of all types, with and without limits, of up to 16777216 pixels',
     'The tests compare one or two pairs; regions that share only a row or column, lie outside of the limits or are masks at negative positions do not occur.',
     REG, 'region_compute_overlap; region_get_mask_offset; trax_region_overlap',
     'Proof of region_compute_overlap: both regions are drawn into masks of the same area, every pixel is counted once and the ratio is that of the counts; products are replaced by lemmas.')
prop('C11', 'Drawing a region sets exactly its pixels and no others, in any window',
     'Drawing a region into a window writes every pixel of the window and nothing outside of it. A pixel of the window is set exactly if the region covers this place of the image: for a mask the pixel it has there, for a rectangle with whole coordinates its columns and rows, for a convex polygon the pixels between its edges, corners included. The result does not depend on where the window lies, what it contained before or whether the region lies partly or wholly outside of it.',
     [I], 'all masks, rectangles and polygons with whole coordinates; windows of any position and size, overlapping the region in any way',
     'The tests draw no region into a window; offsets, clipping and regions outside of the window do not occur.',
     REG, 'region_get_mask_offset; rasterize_polygon; offset_polygon; region_convert to a mask',
     'Proof of the window arithmetic and the copy of masks for all positions and sizes, and of the drawing of polygons into the window.')
prop('C12', 'A region contains exactly the points of its area',
     'A rectangle contains the points between its edges. A mask contains a point exactly if the pixel on which it lies is set, and no point outside of its extent, wherever it lies. A polygon contains a point if an odd number of its edges crosses the row of the point to its right, so every interior point of a simple polygon and no point outside of its bounds. A special region contains no point. No lookup reads outside of the data of the region.',
     [I], 'all regions and all finite points, including points at edges, between pixels and at negative or huge positions',
     'The tests ask for no points at all.',
     REG, 'region_contains_point; point_in_polygon; point_in_mask; trax_region_contains',
     'Proof of the three functions for all regions and points, with a loop contract that counts crossings for polygons.')
prop('C13', 'A property set behaves as a map from names to texts',
     'A value that is set under a name is returned for that name, byte for byte, until it is set again; a name that was never set (or was cleared) has no value. Setting one name never changes another. The count is the number of distinct names, and enumeration reports every name exactly once with its value and passes the object of the caller on. A copy holds the same pairs and is independent. Appending copies every pair of the source, keeps values that are already there unless overwriting is asked for, and leaves the source alone. Clearing and releasing free everything once.',
     [I, H], 'all histories of set, get, has, count, enumerate, append, copy, clear and release over all names and values of any length, with any distribution of names over buckets',
     'The tests set a handful of short distinct names; several names in one bucket, replaced values of other lengths, overwriting and copies do not occur.',
     ['src/strmap.c', 'src/trax.c'], 'sm_put, get_pair and the buckets; sm_get; sm_enum; sm_get_count; sm_delete; copy_properties and its callbacks',
     'Proof of every strmap function for arbitrary buckets and texts (loop contracts for the walks) and of the property functions over their contracts.')
prop('C14', 'Typed property values survive the text form, and bad text gives the default',
     'An integer stored in a property set is read back exactly, for every int. A float is stored in decimal with six places and read back to within half a millionth (and float rounding). Reading a number from a name that is not set, from empty text, from text that is not a number as a whole or, for integers, from a number that does not fit gives the default of the caller and is never undefined.',
     [I], 'all int and float values, all texts, all defaults',
     'The tests store a few small numbers and never read text that is not a number.',
     ['src/trax.c'], 'trax_properties_set_int; trax_properties_get_int; trax_properties_set_float; trax_properties_get_float',
     'Proof of the four functions for all values over the contracts of sprintf, strtod and the property set.')
prop('C15', 'Object lists and image lists hold what was put in, by index and channel',
     'A new object list has the requested number of objects, each with an empty region and its own empty property set. Setting a region stores a copy at that index and changes no other object; indices outside the list do nothing and return nothing. Appending adds copies of all objects of the other list in order, with their properties, and keeps the ones already there. An image list returns for each channel the image set for it. Releasing frees everything exactly once.',
     [I, H], 'all histories of create, set, get, properties, append and release with lists of any length and any index',
     'The tests use lists with one or two objects and valid indices, and hardly append.',
     ['src/trax.c'], 'trax_object_list_create; trax_object_list_set and trax_object_list_get; trax_object_list_append; trax_object_list_release; trax_image_list_set and trax_image_list_get',
     'Proof of the list functions with loop contracts for all lengths and a witness index.')
prop('C16', 'The client sends exactly what the protocol says and returns what it gets',
     'A client that initializes or sends a frame puts exactly the protocol messages of that call on the wire: one initialize message for each object with its region (converted to a format of the tracker) and its properties, then one frame message with one image for each channel of the tracker and the properties; before version 4 one message. A call that can not be completed (not alive, wrong number of objects, missing image) sends nothing and fails. Waiting returns the regions and properties of all objects in order, or quit, or an error with no list.',
     [I, H], 'all protocol versions, modes, channels and formats of the tracker, all histories of initialize, frame and wait with any number of objects and any replies',
     'The tests run one tracker with one object, one channel and well behaved replies.',
     ['src/trax.c'], 'trax_client_initialize; trax_client_frame; trax_client_wait',
     'Proof of the three functions with loop contracts for all numbers of objects over the contracts of messages, lists, regions and properties.')
prop('C17', 'The server returns what the client sent and replies one state per object',
     'A server that waits returns the kind of request, one image for every channel it announced, the region or the new objects with their properties in order, and the properties of the request. A request that is malformed, has the wrong number of arguments, an image of another format or an unexpected kind gives an error without images, region or objects. A reply puts exactly one state message with region and properties for each object on the wire; a reply with another number of objects is refused and sends nothing.',
     [I, H], 'all protocol versions, modes, channels and formats, all sequences of messages of the client with any number of objects and properties',
     'The tests exchange one object in well-formed requests; malformed and unexpected requests and many objects do not occur.',
     ['src/trax.c'], 'trax_server_wait_sot; trax_server_wait_mot; trax_server_reply_sot; trax_server_reply_mot',
     'Proof of the four functions with loop contracts for all numbers of messages and objects over the contracts of messages, lists, images, regions and properties.')
prop('C18', 'A session ends once and stays silent afterwards',
     'Terminating a session sends one quit message with the reason, and only the first time. After it was terminated, or after a quit message of the peer was received, the session is not alive and no call reads from or writes to the channel; waiting, sending and replying fail. Cleaning up terminates a session that is alive, closes the channel and releases everything it holds exactly once.',
     [H], 'all histories of calls of a client or server session, before and after the end of the session, whichever side ends it',
     'The tests end each session once, in order, and make no calls afterwards.',
     ['src/trax.c'], 'trax_terminate; trax_cleanup; TRAX_FLAG_TERMINATED in the session calls; trax_metadata_release',
     'Proof of terminate and cleanup, and of the guard in every session call, for all states of a session.')
prop('C19', 'Client and server agree on version, formats, channels and mode',
     'The hello message of a server announces exactly its version, region formats, image formats, channels, names and, from version 4 on, several objects, together with the custom properties. A client that reads a hello message takes over exactly what is announced, with the documented defaults for what is missing, keeps the custom properties, and refuses anything that is not a hello message or names unknown formats. Writing a set of formats as text and reading it gives the same set.',
     [I, C], 'all combinations of versions, formats, channels, modes, names and properties; all texts of formats',
     'The tests start two trackers with one set of capabilities each.',
     ['src/trax.c'], 'server_setup; client_setup; region_formats_encode and region_formats_decode; image_formats_encode and image_formats_decode; channels_encode and channels_decode',
     'Proof of both setup functions for all values, and of the format lists for all sets and texts.')

def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P:
            if p['na'] is None and p['id'] not in CHECKS:
                continue
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                    anchors=dict(files=p['files'], mechanism=[dict(name=x.strip(), where=p['files'][0]) for x in p['mechanism'].split(';')]))) + '\n')
            assert len(p['title']) <= 80, p['id']
    m = dict(version=1, setup_cmd='./bin/setup.sh', checks=[], not_applicable=[],
             notes='Contract-based deductive verification of the real C sources with goto-instrument/cbmc code contracts (DFCC, loop contracts); see DESIGN.md. Repairs of genuine defects: known_findings.txt. No hooks in /repo.')
    for p in P:
        if p['na'] is not None:
            m['not_applicable'].append(dict(property=p['id'], reason=p['na']))
        elif p['id'] in CHECKS:
            m['checks'].append(dict(property=p['id'], quick_cmd='python3 bin/check.py %s quick' % p['id'],
                thorough_cmd='python3 bin/check.py %s thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
                technique=CHECKS[p['id']].get('technique', 'contract-based deductive verification (CBMC function and loop contracts on the preprocessed sources)'),
                level=CHECKS[p['id']].get('level', 'proof'), level_note=p['note']))
    with open(V + '/MANIFEST.json', 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
