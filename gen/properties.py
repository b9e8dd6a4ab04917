import json
V="av_metrics/src/video/"
def P(id,title,st,over,txt,why,files,mech,state=None,obs=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=txt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["observe_at"]=obs or []
    d["anchors"]["hook_needed"]=hook
    return d
T28="The 28 expected-value tests (run with two decoders) sample one 640x360 clip in a few pixel formats to two decimals"
L=[]
L.append(P("C01","PSNR and APSNR equal their definition on every pair of pictures",
"For every pair of equally shaped pictures, each plane's PSNR is 10*log10(max^2*n/E), where E is the sum of squared differences over the n visible samples and max is the largest sample value of the bit depth, and it is 100 when the planes are equal and never more than 100. The average is the same formula over the pooled samples and errors of all planes. For a video, PSNR pools errors and samples over all compared frames, while APSNR is the arithmetic mean of the per-frame values.",
["inputs","configurations"],"all picture contents, sizes, chroma formats and bit depths 8 to 16, single frames and frame sequences",
T28+"; odd sizes, extreme values, other depths and near-identical pictures are never compared with the definition.",
[V+"psnr.rs",V+"mod.rs"],
[("squared-error sum","psnr.rs calculate_plane_total_squared_error"),("dB conversion and 100 cap","psnr.rs calculate_psnr"),("pooling","psnr.rs calculate_summed_psnr / aggregate_frame_results")],
obs=["return value of calculate_frame_psnr, calculate_video_psnr, calculate_video_apsnr"]))
L.append(P("C02","SSIM equals its definition on every pair of pictures",
"For every pair of equally shaped pictures, each plane's SSIM is the weighted mean, over all visible samples, of the structural similarity of Gaussian windows centred on the sample and cropped at the picture edge (standard deviation 1.5/256 of the plane height, 8-bit integer kernel, stabilisers (0.01*max)^2 and (0.03*max)^2), reported as -10*log10(1-similarity). A video's SSIM is the mean of the per-frame similarities converted to decibels once.",
["inputs","configurations"],"all picture contents, sizes (including sizes smaller than the window), chroma formats and bit depths 8 to 16",
T28+"; window cropping, small planes and other depths are not exercised.",
[V+"ssim.rs"],[("windowed moments","ssim.rs calculate_plane_ssim_internal"),("kernel","ssim.rs build_gaussian_kernel"),("aggregation","ssim.rs aggregate_frame_results, log10_convert")],
obs=["return value of calculate_frame_ssim, calculate_video_ssim"]))
L.append(P("C03","MS-SSIM equals its definition on every pair of pictures",
"For every pair of equally shaped pictures at least 16 samples wide and high in each plane, each plane's MS-SSIM is the product of the contrast-structure terms of the four finest of five dyadic scales and the full similarity of the coarsest one, raised to the published weights (0.0448, 0.2856, 0.3001, 0.2363, 0.1333), a negative term counting as zero, in decibels. Scales are built from 2x2 blocks dropping an odd last row or column, and every scale uses a 9-tap Gaussian window of standard deviation 1.5 cropped at the edge. A video's MS-SSIM is the mean of the per-frame values converted to decibels once.",
["inputs","configurations"],"all picture contents, sizes of at least 16x16 per plane, chroma formats and bit depths 8 to 12",
T28+"; odd sizes at any scale, anticorrelated content and 12-bit depths are not exercised.",
[V+"ssim.rs"],[("scales","ssim.rs calculate_plane_msssim, msssim_downscale"),("windowed moments","ssim.rs calculate_plane_ssim_internal")],
obs=["return value of calculate_frame_msssim, calculate_video_msssim"]))
L.append(P("C04","PSNR-HVS equals its definition on every pair of pictures",
"For every pair of equally shaped pictures at least 8 samples wide and high in each plane, each plane's PSNR-HVS is -10*log10 of the mean squared contrast-weighted and masked difference of the integer 8x8 DCT coefficients over all 8x8 blocks on a 7-sample grid that lie inside the visible picture, relative to the squared sample maximum; luma, Cb and Cr use their own contrast tables. A video's value is the mean of the per-frame errors converted to decibels once.",
["inputs","configurations"],"all picture contents, sizes of at least 8x8 per plane, chroma formats and bit depths 8 to 12",
T28+"; block placement at other sizes, masking corner cases and 12-bit depths are not exercised.",
[V+"psnr_hvs.rs"],[("block loop, masking","psnr_hvs.rs calculate_plane_psnr_hvs"),("DCT","psnr_hvs.rs od_bin_fdct8x8"),("contrast tables","psnr_hvs.rs CSF_*")],
obs=["return value of calculate_frame_psnr_hvs, calculate_video_psnr_hvs"]))
L.append(P("C05","CIEDE2000 score follows the colour-difference formula on every picture pair",
"For every pair of equally shaped pictures of 8, 10 or 12 bits, the score is 45-20*log10(mean colour difference), at most 100, where the mean runs over all visible luma samples, each taken with its co-located chroma, converted from BT.709 limited range to CIELAB, and differenced by the CIEDE2000 formula with kL=0.65, kC=1, kH=4. The published approximation error of the fast colour conversion (well under one percent of the mean difference) is the only deviation. A video's score is the mean of the frame scores.",
["inputs","configurations"],"all picture contents, sizes, chroma formats, all three bit depths, both the vectorised and the portable code path",
T28+"; hue wrap-around, dark colours, saturated out-of-gamut colours, odd widths and 12 bits are not compared with the formula.",
[V+"ciede/mod.rs",V+"ciede/rgbtolab/mod.rs",V+"ciede/delta_e/de2000.rs"],
[("YUV to RGB to Lab","ciede/mod.rs yuv_to_rgb, rgbtolab"),("CIEDE2000","delta_e/de2000.rs"),("score","ciede/mod.rs process_frame")],
obs=["return value of calculate_frame_ciede, calculate_frame_ciede_nosimd, calculate_video_ciede"]))
L.append(P("C06","Vectorised and portable CIEDE2000 paths agree",
"For every pair of pictures, the CIEDE2000 score computed with vector instructions and the one computed without them agree up to single-precision rounding, whatever the width, chroma subsampling, bit depth or sample values.",
["inputs","configurations"],"all picture contents, all widths modulo the vector length, all chroma formats and supported depths",
"Each path is compared with the same rounded constant on one 640x360 clip; remainder columns, chunk boundaries and per-lane errors on other content are not seen.",
[V+"ciede/mod.rs",V+"ciede/rgbtolab/mod.rs"],[("row dispatch","ciede/mod.rs get_delta_e_row_fn"),("AVX2 row","ciede/mod.rs delta_e_row_avx2"),("remainder columns","ciede/mod.rs delta_e_row_avx2 scalar tail")],
obs=["calculate_frame_ciede versus calculate_frame_ciede_nosimd"]))
L.append(P("C07","Scores depend only on visible samples, not on storage layout",
"For every metric, the score of two pictures depends only on their visible samples, dimensions, bit depth and chroma format. Row stride, padding around the picture, where the picture starts inside its buffer and whatever bytes lie outside the visible area never change the score.",
["inputs","configurations"],"all metrics, sizes, chroma formats, depths, padding amounts and padding contents",
"All test clips are 640 samples wide, for which stride equals width and there is no padding, so any mix-up of stride and width is invisible.",
[V+"psnr.rs",V+"psnr_hvs.rs",V+"ssim.rs",V+"ciede/mod.rs"],[("visible-row iteration","plane readers in psnr.rs, ssim.rs, psnr_hvs.rs, ciede/mod.rs")],
obs=["all calculate_frame_* functions on re-laid-out copies of the same picture"]))
L.append(P("C08","Identical input gets the top score; no score is NaN or above the top",
"Comparing any picture or video with itself yields the metric's top score on every plane and on the average: 100 for PSNR, APSNR and CIEDE2000, positive infinity for SSIM, MS-SSIM and PSNR-HVS, up to accumulated rounding for the similarity metrics. No successful comparison of any pictures returns NaN, and PSNR, APSNR and CIEDE2000 never exceed 100.",
["inputs","configurations"],"all picture contents including flat, extreme, noise and anticorrelated ones, all formats, frame and video entry points",
"No existing test compares a picture with itself, a monochrome picture, or nearly identical or anticorrelated pictures.",
[V+"psnr.rs",V+"psnr_hvs.rs",V+"ssim.rs",V+"ciede/mod.rs"],[("caps and dB conversions","calculate_psnr, log10_convert, score.min(100)")],
obs=["all calculate_frame_* and calculate_video_* results"]))
L.append(P("C09","Every metric is symmetric in its two inputs",
"For every metric and every pair of pictures or videos, swapping reference and distorted input gives the same score on every plane and on the average (up to floating-point rounding).",
["inputs"],"all metrics, contents, formats, depths, single frames and videos",
"The tests fix one order of one pair of clips.",
[V+"psnr.rs",V+"psnr_hvs.rs",V+"ssim.rs",V+"ciede/mod.rs",V+"ciede/delta_e/de2000.rs"],[("symmetric formulas","per-metric plane functions"),("mask maximum","psnr_hvs.rs p1_mask/p2_mask"),("hue difference","de2000.rs get_delta_h_prime")],
obs=["score(a,b) versus score(b,a)"]))
L.append(P("C10","Incomparable inputs are rejected with an error, never scored",
"If two inputs differ in bit depth, chroma format or picture dimensions (for videos: at the start or in the middle), or the declared bit depth does not fit the sample type, every metric returns an error and never a score. Two videos with no common frame also give an error.",
["inputs","configurations"],"all metrics, all pairs of differing shapes including ones that round to the same padded size, frame and video entry points",
"Only one test checks one mismatch kind; near-equal sizes and mid-stream changes are not tested.",
[V+"mod.rs",V+"psnr.rs",V+"psnr_hvs.rs",V+"ssim.rs",V+"ciede/mod.rs"],[("plane comparison","mod.rs can_compare"),("video header comparison","mod.rs process_video"),("depth vs sample type","process_frame of each metric")],
obs=["Result of every calculate_* function"]))
L.append(P("C11","Video scores count every frame pair exactly once, correctly paired",
"A video comparison scores exactly the pairs (frame i of the first, frame i of the second) for i from the start to the end of the shorter input or the requested frame limit. Each pair counts once with equal weight, none is lost, repeated or paired across positions, and the result is the documented aggregate of those pairs.",
["histories","schedules","configurations"],"all frame counts and limits, decoder speeds, worker counts and metrics",
"The tests compare one clip of fixed length once per metric on an idle machine; a lost or swapped pair on another schedule shifts the mean by less than their tolerance.",
[V+"mod.rs"],[("decode-and-send thread","mod.rs process_video_mt"),("worker batches","mod.rs process_video_mt loop"),("aggregation","aggregate_frame_results of each metric")],
state=[("bounded channel","frame pairs decoded and not yet scored",V+"mod.rs")],
obs=["mock-decoder event log, calculate_video_* result versus per-frame results"]))
L.append(P("C12","Video comparison always terminates and reports failures",
"Every video comparison over finite inputs returns. If a frame pair cannot be compared, a decoder panics or the progress callback panics at any point of the run, the call ends with an error (or the propagated panic) instead of blocking for ever or returning a score computed from the remaining frames.",
["fault_sequences","schedules"],"fault position in the stream, kind of fault, stream length, worker count, decoder timing",
"No existing test injects a fault after the first frame; a blocked producer only shows when more frames follow than the queue holds.",
[V+"mod.rs"],[("error propagation","mod.rs process_video_mt"),("channel disconnect on failure","mod.rs process_video_mt")],
state=[("channel endpoints","who can still send or receive",V+"mod.rs")],
obs=["return of calculate_video_*, thread states of the process"]))
L.append(P("C13","Progress reports, frame limits and decoder reads follow the protocol",
"During a successful video comparison the progress callback gets 1, 2, 3, ... up to the number of compared pairs, each exactly once and in order, and then exactly one end marker as the last call. A frame limit is never exceeded: no more than that many frames are read from either input, whatever the size of the limit, and neither input is ever read more than one frame ahead of the other.",
["histories","schedules","configurations"],"frame counts, limits from 0 to the largest integer, worker counts and decoder timing",
"The tests pass no limit and ignore the callback.",
[V+"mod.rs"],[("decode loop","mod.rs process_video_mt sender"),("limit","mod.rs frame_limit handling")],
obs=["callback event log and mock-decoder read log"]))
L.append(P("C14","Results do not depend on scheduling, worker count or concurrent runs",
"For fixed inputs, the result of a video or frame comparison is the same (up to floating-point summation order) for every worker-pool size, every relative speed of decoders and workers, every repetition, and when several comparisons run at the same time in one process.",
["schedules","configurations"],"worker-pool sizes, injected delays, repetitions and concurrent comparisons",
"The tests run each metric once in the default pool.",
[V+"mod.rs",V+"ciede/mod.rs"],[("parallel reduce","mod.rs process_video_mt"),("per-plane tasks","process_frame of each metric"),("per-row tasks","ciede/mod.rs process_frame")],
obs=["results across schedules"]))
L.append(P("C15","Y4M decoding delivers exactly the samples in the file",
"For every well-formed Y4M stream in a supported colour format (4:2:0, 4:2:2, 4:4:4 and monochrome; 8, 10 and 12 bits as the format allows; any size, odd ones included) the decoder yields exactly the stored frames in order, each with exactly the stored dimensions and samples on every plane, apart from the documented siting conversion of horizontally co-sited chroma. The reported width, height, bit depth, chroma format and time base are those of the header.",
["inputs","configurations"],"all colour formats, dimensions, frame counts, header parameter orders and frame parameters",
"Test clips are all 640x360 and only the resulting score is checked.",
["av_metrics_decoders/src/y4m.rs",V+"decode.rs"],[("frame conversion","y4m.rs read_video_frame"),("colour format mapping","y4m.rs map_y4m_color_space"),("chroma copy","decode.rs convert_chroma_data")],
obs=["Decoder::read_video_frame, get_video_details"]))
L.append(P("C16","Damaged Y4M input ends cleanly after the intact frames",
"For every truncated or corrupted Y4M stream, opening either fails with an error or succeeds, the intact frames before the damage are delivered unchanged, and reading then reports the end of the video. The decoder never panics, never hangs, and never delivers a partially read frame.",
["inputs","fault_sequences"],"every truncation point, header and frame-marker corruption, unknown parameters",
"No existing test opens a damaged file.",
["av_metrics_decoders/src/y4m.rs"],[("open","y4m.rs new_decoder_from_file"),("frame read","y4m.rs read_video_frame")],
obs=["Decoder results on mutated files"]))
L.append(P("C17","Chroma siting conversion is the documented 6-tap filter, row by row",
"For horizontally co-sited chroma every output sample is the rounded and clamped result of the filter [4 -17 114 35 -9 1]/128 applied horizontally around the same position, with edge samples repeated; for every other siting the samples are copied unchanged. This holds for every plane width, height, stride, padding, sample size and bit depth, and nothing outside the plane's visible area or the source is read into the result.",
["inputs","configurations"],"widths from 1 up, all strides and paddings, sources narrower than the stride, 8 to 16 bits, all siting kinds",
"Only whole-clip 4:2:2 scores at widths where stride equals width go through this code.",
[V+"decode.rs"],[("conversion","decode.rs convert_chroma_data")],
obs=["plane contents after convert_chroma_data"]))
L.append(P("C18","The FFmpeg decoder delivers the same video as the Y4M decoder",
"For every uncompressed video that both decoders support with the same chroma siting, the FFmpeg-based decoder yields the same number of frames, in the same order, with the same dimensions and samples on every plane, and reports the same size, bit depth, chroma format and frame rate as the native Y4M decoder.",
["inputs","configurations"],"all shared colour formats, dimensions (any alignment) and frame counts",
"Both decoders are only compared through two-decimal scores on 640x360 clips, where FFmpeg's row alignment adds no padding.",
["av_metrics_decoders/src/ffmpeg.rs","av_metrics_decoders/src/y4m.rs"],[("frame conversion","ffmpeg.rs decode_frame"),("packet loop and draining","ffmpeg.rs read_video_frame")],
obs=["frames of both decoders on the same file"]))
L.append(P("C19","No memory errors or undefined behaviour on any input",
"Computing any metric, converting chroma and decoding any stream never reads or writes outside the buffers involved, never reads uninitialised or freed memory and never executes undefined behaviour, for all sizes, layouts, chroma formats, depths and on the vectorised and portable paths.",
["inputs","configurations"],"all plane shapes (including widths not divisible by the vector length, narrow chroma, tightly allocated planes) and all entry points",
"Out-of-bounds vector loads do not change scores or crash in ordinary test runs.",
[V+"ciede/mod.rs",V+"ciede/rgbtolab/mod.rs",V+"decode.rs","av_metrics_decoders/src/ffmpeg.rs"],[("bounds of vector loads","ciede/mod.rs load_luma/load_chroma"),("slice bounds","plane readers")],
obs=["AddressSanitizer, Miri and overflow/debug-assertion reports of real runs"]))
L.append(P("C20","No data races in frame or video comparison",
"No two threads of a frame or video comparison (decoding thread, worker pool, caller) ever access the same memory without synchronisation where at least one writes, for every metric, worker count and timing, including several comparisons in one process and failing runs.",
["schedules"],"thread interleavings of the decode thread, workers and concurrent comparisons",
"Races do not fail ordinary tests; no race detector runs in the suite.",
[V+"mod.rs",V+"psnr.rs",V+"ssim.rs",V+"psnr_hvs.rs",V+"ciede/mod.rs"],[("channel hand-over","mod.rs process_video_mt"),("disjoint per-plane results","rayon scopes in process_frame")],
obs=["ThreadSanitizer reports"]))
L.append(P("C21","Command-line reports state exactly the computed scores in every format",
"For every base file, list of compared files and metric selection, the JSON, CSV, Markdown, text-file and terminal reports of one run list the compared files in order and give for each selected metric the value the library computes for that pair (text reports rounded to four decimals), and leave out or mark as absent what was not selected. Quiet mode prints nothing on standard output and alters no report file.",
["inputs","configurations"],"file sets, metric selections, and combinations of output options",
"The command-line program has no tests.",
["av_metrics_tool/src/main.rs"],[("metric dispatch","main.rs run_video_metrics"),("report writers","main.rs Report::print"),("text rows","main.rs PrintResult")],
obs=["files and stdout written by the program"]))
L.append(P("C22","Command-line runs that cannot deliver their report fail visibly",
"Whenever the command-line program cannot open an input, cannot create an output file, or cannot write a complete report to a requested destination, it ends with a non-zero exit status. A zero exit status means every requested report was completely written.",
["fault_sequences","configurations"],"missing, unreadable and malformed inputs; full or unwritable destinations, for each output format; standard output that is full or whose reader is gone",
"The command-line program has no tests, and write errors need a full or failing destination.",
["av_metrics_tool/src/main.rs"],[("file creation","main.rs main"),("write and flush errors","main.rs main, Report::print, OutputType")],
obs=["exit status and output files"]))
L.append(P("C23","Reading a specific frame returns that frame or nothing",
"On any decoder positioned at its start, asking for frame n returns exactly the n-th frame (counting from zero) when the video has one, leaving the decoder positioned just after it, and returns nothing when the video is shorter. In the latter case the request stops at the end of the video after a bounded number of further reads, however large n is.",
["inputs","histories"],"frame numbers from 0 to the largest integer, video lengths, sequences of seeks and reads",
"No existing test calls it.",
[V+"decode.rs"],[("seek","decode.rs Decoder::read_specific_frame")],
obs=["mock-decoder read log, returned frame"]))
L.append(P("C24","The average follows the documented plane weighting and frames agree with videos",
"For SSIM, MS-SSIM and PSNR-HVS the average equals the decibel value of the weighted mean of the plane errors, luma counting 1 and each chroma plane 0.25, 0.5, 1 or 0 for 4:2:0, 4:2:2, 4:4:4 and monochrome, so it always lies between the smallest and the largest plane score. A one-frame video scores exactly as the frame itself on every metric, plane and average.",
["inputs","configurations"],"all metrics, contents, chroma formats and depths",
"The tests compare single averages of one clip and never relate them to the planes or the frame function to the video function beyond that clip.",
[V+"mod.rs",V+"ssim.rs",V+"psnr_hvs.rs",V+"psnr.rs"],[("chroma weight","mod.rs get_chroma_weight"),("averages","calculate_frame_* and aggregate_frame_results")],
obs=["PlanarMetrics of frame and one-frame video runs"]))
L.append(P("C25","Every comparison returns a score or an error, never a panic",
"For every pair of well-formed pictures or videos of any size from 1x1 up, any chroma format including monochrome, and any bit depth from 8 to 16, each metric either returns a score or returns an error saying the input is not supported; it never panics, aborts or overflows. Monochrome input is supported by every metric and scores as its luma plane alone.",
["inputs","configurations"],"all sizes, chroma formats, depths and metrics, frame and video entry points",
"The tests use one size, no monochrome input and only supported depths.",
[V+"psnr.rs",V+"psnr_hvs.rs",V+"ssim.rs",V+"ciede/mod.rs"],[("input validation","process_frame of each metric")],
obs=["Result or panic of every calculate_* function"]))
L.append(P("C26","The VapourSynth decoder delivers the script's frames unchanged",
"For every VapourSynth clip of constant format (planar grey or YUV 4:2:0, 4:2:2 or 4:4:4, 8 to 16 bits), whether from a script or from a video file of any name through either source plugin, the decoder yields all frames in order, each once, with exactly the clip's samples and size whatever the padding of its rows, then nothing, and reports the clip's size, depth, chroma format, frame rate and frame count. A frame that cannot be made ends the video. Clips it cannot describe (variable format, size or rate, other subsampling, packed, floating, deeper than 16 bits) and missing or invalid inputs are refused with an error, never a panic or wrong frames. Frame, node and script handles are given back.",
["inputs","configurations","fault_sequences"],"all node formats, sizes, rates, frame counts, row paddings and file names",
"The decoder is not built or tested in the suite.",
["av_metrics_decoders/src/vapoursynth.rs"],[("frame conversion","vapoursynth.rs read_video_frame")],
obs=["Decoder::read_video_frame"]))
L.append(P("C27","Coded video is delivered frame by frame as the codec produces it",
"For every file FFmpeg can decode into a supported pixel format, whatever the container, codec, frame reordering, codec delay, number of pictures per packet and place of the video among the streams, the FFmpeg decoder yields exactly the frames the codec produces for the best video stream, in presentation order, each once, with their own samples (after the documented chroma siting), none lost at the end, and then nothing; size, depth, chroma format and frame rate are reported as the file states them.",
["inputs","configurations"],"codecs, containers, group-of-pictures structures, packet layouts, stream orders, lengths",
"The tests decode three-frame clips and only compare averaged scores; frame loss and reordering need B-frames, delay or packets with several pictures.",
["av_metrics_decoders/src/ffmpeg.rs"],[("packet and frame loop, draining","ffmpeg.rs read_video_frame"),("stream choice and details","ffmpeg.rs FfmpegDecoder::new")],
obs=["frames of the decoder against a plain send/receive loop over the same library"]))
L.append(P("C28","Damaged or changing coded video ends cleanly, with no foreign samples",
"For every file, however damaged, truncated or changing in size or pixel format part-way, the FFmpeg decoder refuses it or yields exactly the frames the codec still produces, each with its own size, up to the first one whose samples are of another depth or chroma format than announced, and then ends for good; it never panics, never takes the process down and never reads for ever.",
["fault_sequences","inputs"],"damage of every kind at every place; concatenated videos of other sizes and formats",
"No existing test damages a coded file or changes its format.",
["av_metrics_decoders/src/ffmpeg.rs"],[("packet errors","ffmpeg.rs send_next_packet"),("changing formats","ffmpeg.rs read_video_frame, decode_frame")],
obs=["frames, end, exit of the reading process, processor time without progress"]))
with open("/verif/properties.jsonl","w") as f:
    for d in L:
        assert len(d["title"])<=80,d["id"]
        f.write(json.dumps(d)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in L: jsonschema.validate(d,s)
print(len(L))
