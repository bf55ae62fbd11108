P("C19", "Values encoded as text or bytes are decoded exactly, anything else refused",
  "Base64, URL-safe base64 and hex encodings of any bytes are the standard ones with exactly the announced size, and decode to the same bytes; a text is accepted for decoding exactly when it is a valid encoding. Integers (signed, unsigned, 32 and 64 bit, file modes) are read from text exactly when the text is a number in the range of the type, with exactly that value. Variable length integers and short identifiers (with and without sequence) decode to what was encoded. Everything else is refused with a format error, never with accesses outside of the data.",
  ["inputs"], "all byte strings and texts up to the bound, all 64 bit values",
  "Tests use fixed values.",
  ["src/common/encode.c", "src/common/type/convert.c", "src/common/type/stringId.c"],
  [("encode", "encodeToStr"), ("decode", "decodeToBin"), ("number in text", "cvtZToUInt64"), ("varint", "cvtUInt64FromVarInt128"), ("identifier", "strIdFromZN")],
  [R("encode", "convert.c", "any data of up to 10 bytes", entry="encode", args={0: 10}, thorough={0: 24}, labels=["done"]),
   R("decode-base64", "convert.c", "any text of up to 9 bytes", entry="decode", args={0: 9}, thorough={0: 13}, labels=["valid", "refused", "done"]),
   R("decode-hex", "convert.c", "any text of up to 7 bytes", entry="decode", args={0: 7, 1: 1}, thorough={0: 12, 1: 1}, labels=["valid", "refused", "done"]),
   R("varint", "convert.c", "any 64 bit value", entry="varint", labels=["done"]),
   R("varint-bytes", "convert.c", "any data of up to 11 bytes", entry="varint", args={0: 1}, labels=["valid", "refused", "done"]),
   R("identifier", "convert.c", "any text of up to 12 bytes, five sequences", entry="strid", args={0: 12}, thorough={0: 13}, labels=["valid", "refused", "done"]),
   R("number", "convert.c", "any text of up to 4 bytes", entry="number", args={1: 4}, thorough={1: 6}, labels=["valid", "refused", "done"]),
   R("number-limit", "convert.c", "any 3 bytes after the leading digits of the limits of each type", entry="number", args={0: 1, 1: 3}, thorough={0: 1, 1: 4}, labels=["valid", "refused", "done"])],
  observe=["values", "error type"])
P("C20", "Times, WAL locations and WAL segment names are converted exactly",
  "A date and time with an optional fraction and time zone is converted to exactly the moment it names, for every date from 1970 to 9999, and refused when it does not exist or is not of that form. For every WAL location, timeline and WAL segment size the segment name is the one PostgreSQL uses, a range of locations gives exactly the segments from the first to the last in order, and the segments following a segment are named in order across the boundaries of the high part. Locations written as text read back unchanged.",
  ["inputs"], "every date (every day of selected years in the quick tier), time of day and time zone offset, every 64 bit location below 2^44 and timeline, all segment sizes from 1MiB to 1GiB",
  "Tests use fixed values.",
  ["src/common/time.c", "src/common/type/convert.c", "src/postgres/interface.c", "src/command/archive/common.c"],
  [("date and time", "cvtZToTime"), ("segment of a location", "pgLsnToWalSegment"), ("segments of a range", "pgLsnRangeToWalSegmentList"), ("next segment", "walSegmentNext"), ("location in text", "pgLsnFromStr")],
  [R("date", "convert.c", "every month and any day of 25 years from 1900 to 9999 (all in the thorough tier)", entry="datetime", thorough={1: 1}, labels=["valid", "refused", "done"]),
   R("time", "convert.c", "any hour, minute and second, with and without fraction", entry="datetime", args={0: 1}, labels=["valid", "refused", "done"]),
   R("zone", "convert.c", "any time zone offset", entry="datetime", args={0: 2}, labels=["valid", "refused", "done"]),
   R("form", "convert.c", "any one byte of a valid text replaced by anything but a digit", entry="datetime", args={0: 3}, labels=["refused", "done"]),
   R("segments", "convert.c", "any location below 2^44, timelines below 256 (any in the thorough tier), all segment sizes, up to 2 following segments", entry="lsn", args={0: 2}, thorough={0: 4, 1: 1}, labels=["done"]),
   R("location", "convert.c", "any location (with 1 or 8 digits in one of the parts in the quick tier)", entry="lsntext", thorough={0: 1}, labels=["done"])],
  observe=["values", "error type"])
