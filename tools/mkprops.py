import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
D="gift/src/decode.rs";E="gift/src/encode.rs";B="gift/src/block.rs";L="gift/src/lzw.rs";V="gift/src/private.rs";M="gift-bin/src/main.rs"
p("C01","Decoding does not depend on how the reader delivers the bytes",
 "For any byte sequence (valid, truncated or corrupt), any size limit and any of the block, frame, step and looping iterators, the items yielded and the error reported are the same however the reader splits the bytes into short reads and however often a read is interrupted. An interrupted read is retried and never reported. Turning logging on or off changes nothing.",
 ["inputs","schedules","fault_sequences","configurations"],
 "every byte sequence x every segmentation of it into short reads x every placement of (finitely many) Interrupted results x the four iterators x size limit x log level",
 "The tests read from a slice which always fills the whole request; no test has a short or an interrupted read.",
 [D],[("loop which fills a buffer, retrying interrupted reads",D+": Blocks::fill_buffer"),("all parsing goes through it",D+": Blocks::parse_*, decode_sub_block")],
 [("partially filled buffer","bytes of the current field received so far",D)],["items of Decoder::into_blocks/into_frames/into_steps/into_iter"])
p("C02","Blocks, frames and preamble of a conforming file are decoded exactly",
 "For every conforming GIF87a/89a file, the block iterator yields every block of the file in order with every field value and sub-block as stored, ending with the trailer and then nothing. The preamble and frame iterators yield the same content grouped per frame, a graphic control being attached to exactly the next image (or used up by plain text). Asking for the preamble a second time gives no second preamble and loses no frame.",
 ["inputs","programs","schedules"],
 "every conforming file: all header versions, screen and image descriptor fields, table sizes 2..256, extensions of every kind with any sub-block lengths at every legal position, any number of frames, under any read schedule",
 "The tests decode one 69-byte file with one frame, one table and no extension but a default graphic control.",
 [D,B],[("expected-next state machine",D+": Blocks::expected_next, parse_expected, parse_block"),("sub-block loop",D+": Blocks::decode_sub_block"),("frame assembly",D+": Frames::handle_block, preamble"),("flag getters and table sizes",B+": LogicalScreenDesc, ImageDesc, GraphicControl, ColorTableConfig")],
 [("expected_next","which block must come next and its size",D+": Blocks"),("graphic_control_ext/image_desc/local_color_table","parts of the frame being assembled",D+": Frames")],["Blocks, Frames, Preamble, Frame getters"])
p("C03","Pixel data of every legal LZW stream is recovered exactly",
 "For every legal LZW code stream (minimum code size 2 to 8, clear codes anywhere or none, table full and clear deferred for any length, any choice of matches, any split into sub-blocks, end code present or not once the image is complete, bytes after the end code, surplus pixels), the image data yielded is exactly the pixels the stream encodes, cut to width times height.",
 ["inputs","histories","schedules"],
 "every image x every legal encoder strategy (match choice, clear placement, deferral, sub-block split) x read schedule",
 "The tests decode one 100-pixel image; no test fills the code table, clears mid-stream, defers the clear, splits a code over sub-blocks, or has data after the end code.",
 [L,D],[("code table growth and code width",L+": Decompressor::decompress_data"),("bit buffer kept over sub-blocks",L+": Decompressor::unpack"),("truncation to the image size",D+": ImageData::parse_sub_block, finish")],
 [("table/prefix/code_bits","LZW dictionary state",L+": Decompressor"),("code/n_bits","bits left over from the last sub-block",L+": Decompressor"),("ended","end code seen",L+": Decompressor")],["ImageData::data()"])
p("C04","Animation steps are composited as the GIF89a rules say",
 "For every conforming animation, step n's raster is the logical screen after drawing frames 1..n with each frame's placement, interlacing, local or global colours, transparency (transparent pixels leave what is below) and the disposal of each earlier frame (keep, clear its area, restore what was there before it). Each step carries its own frame's delay and transparent colour.",
 ["inputs","histories","schedules"],
 "every sequence of frames (rectangles, interlace, tables, transparency, all disposal codes 0..7, delays) x read schedule",
 "The tests render a single opaque full-size frame; no test has two frames, transparency, disposal or interlacing.",
 [D,V,B],[("canvas update",D+": update_raster, update_frame, interlaced_row"),("disposal",D+": StepsOnce::apply_frame"),("step attributes",V+": Step::with_transparent_color, with_delay_time_cs")],
 [("raster","canvas kept between frames",D+": StepsOnce")],["Step::raster, delay_time_cs, transparent_color"])
p("C05","Looping playback repeats the animation exactly as the file asks",
 "Iterating a decoder with looping plays the steps of the file in order 1+n times for a loop count n > 0, without end for a loop count 0, and once if there is no loop extension, and then ends for good. Every pass yields the same steps as non-looping decoding, for loop counts 0 to 65535 under either registered application identifier.",
 ["inputs","histories"],
 "every animation x every loop count 0..65535 (and none) x both application identifiers x other application extensions and comments around it",
 "The tests iterate one single-frame file without a loop extension.",
 [D,B],[("replay of stored steps and countdown",D+": StepsLooping::next"),("loop count parsing",B+": Application::loop_count"),("loop extension kept in the preamble",D+": Frames::handle_block")],
 [("loop_count/step_n","remaining repeats and position",D+": StepsLooping")],["Decoder::into_iter"])
p("C06","A truncated file is never taken for a complete one",
 "Cut a conforming file at any byte before its end: the iterators yield exactly the items which are complete in the remaining bytes, unchanged, and then report an unexpected end of file, and then end. The preamble call reports the same error if the cut is inside the preamble, and looping iteration reports it instead of playing a partial animation as if complete.",
 ["inputs","crash_points","schedules"],
 "every conforming file x every cut position x block, frame, step and looping iterators x read schedule",
 "One test reads an empty file as frames; no other cut position is tried.",
 [D],[("end of input while filling a buffer",D+": Blocks::fill_buffer"),("error stops iteration",D+": Blocks::next, StepsOnce::next, StepsLooping")],
 [("done","an error or the trailer was delivered",D)],["iterator items after end of input"])
p("C07","A read error is reported as it is, and nothing before it is lost",
 "If the reader fails with an I/O error (other than an interruption) at any byte position, every item complete before that position is yielded unchanged, then that same error (same kind, payload or OS code) is reported as an I/O error whose text and source are that error, and then iteration ends. This holds whether the reader keeps failing or would recover.",
 ["inputs","fault_sequences","schedules"],
 "every conforming file x every failing byte position x error kind x one-shot or sticky failure x iterator x read schedule",
 "No test has a failing reader.",
 [D,"gift/src/error.rs"],[("error conversion",D+": Blocks::fill_buffer; gift/src/error.rs: From<io::Error>"),("done flags",D+": Blocks::next, StepsOnce::next")],
 None,["Error::Io payload"])
p("C08","An error ends iteration, and draining an iterator always terminates",
 "Whatever the input bytes and reader faults, after an iterator yields an error its next call yields nothing, and a loop which drains a non-looping iterator (or builds a looping one) finishes after a number of reads bounded by the input length once the reader stops interrupting. No item is yielded after an error in the same pass.",
 ["inputs","fault_sequences","schedules"],
 "every byte sequence (valid, mutated, truncated, random) x read faults x the four iterators",
 "Two tests check one header error and one empty file; errors raised in frame assembly or compositing, and errors in step iterators, are not tried.",
 [D],[("done flags",D+": Blocks::next, Frames::next, StepsOnce::next, StepsLooping::next")],
 [("done","set by an error",D)],["sequence of next() results; number of reader calls"])
p("C09","Hostile bytes cannot crash, hang or exhaust memory",
 "For any byte sequence whatever, decoding with a size limit L never panics, aborts or hangs, and its peak heap use is bounded by a constant plus a small multiple of L plus a small multiple of the bytes read (looping iteration, which keeps every step, aside). Calling an iterator again after an error or its end is safe too.",
 ["inputs","fault_sequences","schedules"],
 "every byte sequence (structure-aware mutants, LZW bombs, random) x size limit x iterator x read faults x continued polling",
 "The tests feed three inputs; none is hostile and none measures memory.",
 [D,L,V],[("code validity checks",L+": Decompressor::decompress_data"),("surplus data discarded",D+": ImageData::parse_sub_block"),("size limit",D+": Blocks::parse_image_desc, StepsOnce::make_raster"),("overflow-free sizes",D+": StepsOnce::make_raster")],
 [("table","code table",L)],["panic/abort, heap peak, reader calls"])
p("C10","The image size limit is enforced exactly, before the pixels",
 "An image of width times height pixels is refused as too large exactly when that exceeds the configured limit (2^25 by default, none if disabled), for any frame of the file; for steps the same holds for the logical screen. The refusal comes before its pixel data is read and without allocating memory for it, and items before it are unaffected.",
 ["inputs","configurations","histories"],
 "every image and screen size 0..65535 x 0..65535, at every frame position x every limit (below, equal, above, default, none)",
 "No test sets or reaches the limit.",
 [D,V,B],[("check at the image descriptor",D+": Blocks::parse_image_desc"),("check at the screen",D+": StepsOnce::make_raster"),("default",V+": Decoder::new"),("size arithmetic",B+": ImageDesc::image_sz")],
 [("max_image_sz","limit",V+": Decoder")],["error kind, reader position, heap peak"])
p("C11","Decoding is streaming: no read-ahead and no waiting for later bytes",
 "Every block, frame and step (non-looping) is yielded as soon as the bytes up to the end of its last sub-block have arrived: when it is yielded no byte past that point has been consumed, so a live or stalled stream shows everything sent so far. After the trailer the reader stands exactly behind it, so data following a GIF in the same stream is intact and several GIFs in a stream can be decoded one after the other.",
 ["inputs","schedules","histories"],
 "every sequence of files in a stream x every arrival schedule of the bytes x iterator",
 "The tests hand over whole files; reader position and arrival order are not observed.",
 [D],[("exact-size reads",D+": Blocks::fill_buffer and its callers"),("stop at the trailer",D+": Blocks::next")],
 None,["reader position when an item is yielded"])
p("C12","Each malformation gives its documented error after all earlier items",
 "A file broken in one documented way (bad signature, unsupported version, unknown block code, wrong graphic control length, invalid LZW code, too few pixels, two graphic controls for one frame, frame outside the screen, no colour table, colour index beyond the table) yields all items before the broken place unchanged and then the documented error for it. The fault is reported at the level whose rule is broken and not at a lower one.",
 ["inputs","histories","schedules"],
 "every conforming file x every place for each malformation class x iterator x read schedule",
 "One test checks an unsupported version in a 6-byte file.",
 [D,L,"gift/src/error.rs"],[("checks and error values",D+": parse_header, parse_block, parse_sub_block, finish, handle_block, update_raster, update_frame"),("code check",L+": Decompressor::decompress_data")],
 None,["Error variant and items before it"])
p("C13","Animations written with the step encoder decode back unchanged",
 "For every sequence of indexed steps of one size (1 to 65535 a side, palettes of 1 to 256 colours, any pixel indices into them, any delay, disposal, transparent colour, loop count and optional global colour table), the file written is a conforming GIF which an independent reader and this library both decode to the same pixels, colours, delays, transparency, disposal, screen size and loop count. A global colour table or loop count given to the encoder (the last one, if several) is the one in the file.",
 ["inputs","programs","histories","schedules"],
 "every step sequence x encoder options x write schedule",
 "Three tests compare one-step files of at most 16 pixels with stored bytes; palettes over 5 colours, several steps, code width changes, table clears and options are not tried.",
 [E,L,V,B],[("LZW compressor",L+": Compressor::compress"),("minimum code size",E+": ImageData::format, next_high_bit"),("colour tables",E+": make_color_table, StepEnc::encode_indexed_raster"),("sub-blocks",E+": ImageData::format")],
 [("preamble","global table and size of the file",E+": StepEnc"),("table/code_bits","compressor state",L+": Compressor")],["bytes written; decoded steps"])
p("C14","Blocks and frames survive re-encoding unchanged",
 "Decoding any conforming file at block or frame level and encoding the result again (any number of times) gives a file which decodes to the same blocks, or the same preamble and frames, with every field, sub-block, table and pixel equal. Everything but the compressed image data is byte for byte the same as the input.",
 ["inputs","programs","histories","schedules"],
 "every conforming file x block or frame level x repeated transcoding x read and write schedules",
 "No test encodes a block or frame which was decoded, or any block with fields away from their defaults.",
 [E,D,B],[("block formatting",E+": */format"),("frame formatting",E+": FrameEnc::encode_preamble, encode_frame")],
 None,["bytes written; decoded blocks and frames"])
p("C15","Encoding tolerates any writer: short writes, interrupts, hard failures",
 "The bytes an encoder writes do not depend on short or interrupted writes, and every call which returns success has handed all its bytes to the writer. If the writer fails or accepts nothing, the call in progress reports that same I/O error, what has been written when it returns is an exact prefix of the fault-free output, and dropping the encoder does not panic.",
 ["inputs","fault_sequences","schedules"],
 "every call history of the three encoders x every segmentation of the writes x interrupts x every failing byte position x error kind",
 "The tests write to a Vec, which never fails or writes short.",
 [E],[("write_all everywhere",E+": */format"),("errors passed on with ?",E+": BlockEnc::encode, FrameEnc, StepEnc"),("drop ignores errors",E+": Drop for StepEnc")],
 None,["bytes in the sink after each call; returned errors"])
p("C16","Encoders keep files well-formed under any order of calls",
 "Whatever the order of calls, the output is always one preamble first, then whole frames, then one trailer last: a call out of order (frame or trailer before the preamble, second preamble, anything after the trailer), a step of another size or one too large for the format is refused with its documented error, writes nothing and leaves the encoder usable as before. Dropping a step encoder ends the file with exactly one trailer if anything was written, and writes nothing otherwise.",
 ["programs","histories","inputs"],
 "every sequence of calls, valid or not, on the frame and step encoders",
 "The tests make one valid call each.",
 [E],[("has_preamble/has_trailer checks",E+": FrameEnc"),("size checks",E+": StepEnc::encode_indexed_raster, make_image_desc"),("trailer on drop",E+": Drop for StepEnc")],
 [("has_preamble/has_trailer","progress of the file",E+": FrameEnc"),("preamble","size of the file",E+": StepEnc")],["results and bytes written per call"])
p("C17","A recording cut off by a crash keeps every acknowledged step",
 "If the process stops at any byte of the output while steps are being encoded, decoding what reached the writer yields every step whose encode call had returned success (and at most the one in progress, whole), unchanged and in order, and then reports an unexpected end of file. With a buffered writer the same holds for steps acknowledged before the last flush.",
 ["crash_points","histories","inputs"],
 "every step history x every crash byte x direct or buffered writer with any flush schedule",
 "No test stops an encoder before its end.",
 [E,D],[("frames written in full before success",E+": FrameEnc::encode_frame"),("decoder yields whole frames first",D+": Frames::next, Blocks::fill_buffer")],
 None,["surviving prefix decoded"])
p("C18","Decoders and encoders in one process do not affect each other",
 "Any number of decoders and encoders running at the same time, on one thread or many, interleaved at any read, write or item boundary, moved between threads between calls, some failing or abandoned halfway, each give the result they give alone.",
 ["schedules","histories","fault_sequences"],
 "every interleaving of every set of sessions, thread placement, faults in some sessions, early drops",
 "Every test runs one session at a time.",
 [D,E,L],[("no shared state; state lives in each iterator and encoder",D+", "+E+", "+L)],
 None,["items and bytes per session against a solo run"])
p("C19","The gift command lists files truthfully and fails loudly",
 "For any list of files (none, one or many, also the same one twice), the command prints in the order given, under its name, for each conforming file its version, frame count, loop count, comments ahead of the first image and one row per frame in order with the stored interlacing, delay, disposal, size, position, colour count and transparent index, whatever short or interrupted reads and writes happen. If a file is missing, truncated or corrupt, a read fails, or output cannot be written, it exits with failure and a message on standard error, and never reports success for an incomplete listing; files before the bad one are listed in full.",
 ["inputs","fault_sequences","schedules"],
 "every list of files x fault sequences on open/read/write system calls",
 "The command has no tests.",
 [M,D],[("errors passed on with ?",M+": main, show_file, show_frame"),("row formatting",M+": show_frame")],
 None,["stdout, stderr, exit status of the real binary"])
p("C20","Memory does not grow with the length of an animation",
 "Decoding blocks, frames or non-looping steps, and encoding with any encoder, keeps peak heap bounded by the largest single frame and the screen, however many frames the animation has. Nothing of a frame already handed over is kept once the caller drops it.",
 ["histories","inputs","schedules"],
 "every animation length x frame sizes x iterators and encoders",
 "The tests have one frame and do not measure memory.",
 [D,E],[("one frame in flight",D+": Frames::handle_block (take), StepsOnce::apply_frame"),("frames written through",E+": FrameEnc::encode_frame")],
 [("raster","only canvas kept",D+": StepsOnce")],["heap peak per item against length"])
p("C21","Blocks, frames and steps carry exactly what was last set",
 "Whatever the order and repetition of constructor and setter calls on screen and image descriptors, graphic controls, extensions, colour table configurations and steps, every getter returns the value last set for it, a setter changes no other field, and an equal value (a clone included) gives the same. Arguments which are documented as panicking (sub-blocks of no or more than 255 bytes, colour tables not made of triples) are refused by a panic and leave the value as it was. Written by an encoder and read back, the block or step has the same values.",
 ["histories","inputs","schedules"],
 "every sequence of constructor and setter calls x every argument value, then writing and reading under any schedule of short and interrupted calls",
 "The unit tests set each flag at most once or twice on a fresh value; no test sets fields in another order, sets one twice, or writes the result.",
 [B,V,E],[("bit masks",B+": LogicalScreenDesc, ImageDesc, GraphicControl, ColorTableConfig"),("builder methods",B+": LogicalScreenDesc::with_*, ImageDesc::with_*, Application::with_loop_count; "+V+": Step::with_*")],
 [("flags","packed fields sharing one byte",B+": LogicalScreenDesc, ImageDesc, GraphicControl")],["getters after every call; blocks read back"])
p("C22","Encoded images are compressed, and nothing needless is written",
 "Each image an encoder writes takes no more than a quarter more bytes (and 64) than a plain LZW encoder of eight-bit pixels, which always takes the longest match and clears its table when that is full, makes of the same pixels. Everything else in the file is only the blocks which the content needs, so the size of a file is bounded by its content, whatever the images, their number and their order.",
 ["inputs","histories","schedules"],
 "every image and every sequence of images x encoder (step, frame, block) x write schedule",
 "The tests compare two tiny images; a compressor which stops finding matches, or starts badly from what the image before left, still gives valid files and passes them all.",
 [L,E],[("dictionary tree",L+": Compressor::search_insert, insert_node, CNode::link, set_link"),("table full",L+": Compressor::compress"),("sub-blocks",E+": sub-block writer")],
 [("table","dictionary of the image so far",L+": Compressor")],["bytes which reached the writer, per image"])
p("C23","The example programs show what is in a file, write what they say, fail loudly",
 "The decoding examples print every block, frame or step of a file in order and nothing else, and the encoding examples write the complete file with the picture in their source, however system calls are cut short or interrupted. If the file is missing or damaged, a read fails, or the output cannot be made or written completely, the example prints exactly what comes before the fault (or leaves exactly the bytes before it), and ends with failure and a message.",
 ["inputs","fault_sequences","schedules"],
 "every input file x fault sequences on open/read/write system calls x the six examples",
 "The examples are compiled by the tests but never run.",
 ["gift/examples/dec_block.rs","gift/examples/dec_frame.rs","gift/examples/dec_raster.rs","gift/examples/enc_block.rs","gift/examples/enc_raster.rs","gift/examples/dots.rs",D,E],[("errors passed on with ?","gift/examples/*.rs: main, decode"),("buffered writer dropped at the end","gift/examples/enc_*.rs, dots.rs: main")],
 None,["standard output, files made, exit status of the real programs"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
