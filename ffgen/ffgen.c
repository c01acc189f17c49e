/* ffgen OUT CODEC PIXFMT W H N BFRAMES LOSSLESS AUDIO W2 H2 RATE_NUM RATE_DEN
 * Encodes N frames whose raw samples are read from stdin (planar, 8 bit or 16 bit little endian,
 * without any padding) into OUT, whose name selects the container. AUDIO is 0, 1 (a stream of PCM
 * audio after the video) or 2 (before it). If W2 is not 0 there is a second video stream of size
 * W2 x H2 in ffv1, each of whose frames comes after the one of the first stream on stdin.
 * Prints the number of packets of the first stream, how many were not in presentation order, and
 * how many pictures of the expected size libavcodec gets back from the stream it takes for the main
 * one (nothing can be expected from a file which ffmpeg itself cannot read), the very same ones if the
 * stream is lossless (some encoders are not quite, although they say so).
 * With LOSSLESS 2 frames are plain and nothing is read, so that PIXFMT can be any. */
#include <libavcodec/avcodec.h>
#include <libavformat/avformat.h>
#include <libavutil/opt.h>
#include <libavutil/pixdesc.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static void die(const char *m, int e) {
    fprintf(stderr, "ffgen: %s %s\n", m, e ? av_err2str(e) : "");
    exit(2);
}

struct video {
    AVStream *st;
    AVCodecContext *c;
    int packets, reordered, lossless;
    int64_t last;
    uint8_t *raw;     /* all that was encoded */
    size_t size;
};

static AVFormatContext *fc;
static FILE *source;      /* the raw samples */
static char *stats;       /* of the first pass, for encoders which take two */

static void video_open(struct video *v, const char *name, enum AVPixelFormat pf, int w, int h, int bf, int lossless, AVRational rate, int pass) {
    const AVCodec *codec = avcodec_find_encoder_by_name(name);
    int e;
    if (!codec) die("no encoder", 0);
    v->st = pass == 1 ? NULL : avformat_new_stream(fc, NULL);
    v->c = avcodec_alloc_context3(codec);
    v->packets = v->reordered = 0;
    v->lossless = lossless;
    v->raw = NULL;
    v->size = 0;
    v->last = -1;
    AVCodecContext *c = v->c;
    c->width = w; c->height = h; c->pix_fmt = pf; c->time_base = av_inv_q(rate); c->framerate = rate;
    c->gop_size = 12; c->max_b_frames = bf; c->thread_count = 1; c->flags |= AV_CODEC_FLAG_BITEXACT;
    c->strict_std_compliance = FF_COMPLIANCE_UNOFFICIAL;
    AVDictionary *o = NULL;
    if (!strcmp(name, "libx264")) {
        av_dict_set(&o, "preset", "fast", 0);
        if (lossless) av_dict_set(&o, "qp", "0", 0);
        av_dict_set(&o, "x264-params", "b-adapt=0:scenecut=0:log-level=none", 0);
    } else if (!strcmp(name, "libx265")) {
        av_dict_set(&o, "preset", "ultrafast", 0);
        av_dict_set(&o, "x265-params", lossless ? "lossless=1:log-level=none:pools=1" : "log-level=none:pools=1", 0);
    } else if (!strcmp(name, "libvpx-vp9") || !strcmp(name, "libvpx")) {
        av_dict_set(&o, "deadline", "good", 0);
        av_dict_set(&o, "cpu-used", "5", 0);
        av_dict_set(&o, "auto-alt-ref", "1", 0);
        av_dict_set(&o, "lag-in-frames", pass ? "20" : "16", 0);
        /* with two passes there are packets which show nothing */
        if (pass) c->gop_size = 100;
        if (pass == 1) c->flags |= AV_CODEC_FLAG_PASS1;
        if (pass == 2) { c->flags |= AV_CODEC_FLAG_PASS2; c->stats_in = stats; }
        if (lossless) av_dict_set(&o, "lossless", "1", 0);
        c->bit_rate = 2000000;
        c->qmax = 20;
    } else if (!strcmp(name, "libaom-av1")) {
        av_dict_set(&o, "cpu-used", "8", 0);
        av_dict_set(&o, "crf", "15", 0);
        c->bit_rate = 0;
    } else if (!lossless) {
        c->flags |= AV_CODEC_FLAG_QSCALE;
        c->global_quality = 2 * FF_QP2LAMBDA;
        c->qmin = 1;
    }
    if (fc->oformat->flags & AVFMT_GLOBALHEADER) c->flags |= AV_CODEC_FLAG_GLOBAL_HEADER;
    if ((e = avcodec_open2(c, codec, &o)) < 0) die("open", e);
    if (pass == 1) return;
    avcodec_parameters_from_context(v->st->codecpar, c);
    v->st->time_base = c->time_base;
    v->st->avg_frame_rate = c->framerate;
}

/* Encodes a frame from stdin, or flushes */
static void video_frame(struct video *v, int i, int n) {
    static AVPacket *p;
    AVFrame *f = av_frame_alloc();
    const AVPixFmtDescriptor *d = av_pix_fmt_desc_get(v->c->pix_fmt);
    int bytes = d->comp[0].depth > 8 ? 2 : 1, e, plain = v->lossless == 2;
    if (!p) p = av_packet_alloc();
    if (i < n) {
        f->format = v->c->pix_fmt; f->width = v->c->width; f->height = v->c->height; f->pts = i;
        if ((e = av_frame_get_buffer(f, 0)) < 0) die("frame", e);
        for (int k = 0; plain && k < 4 && f->buf[k]; k++) memset(f->buf[k]->data, 1 + i % 3, f->buf[k]->size);
        for (int k = 0; k < 3 && !plain; k++) {
            int pw = k ? AV_CEIL_RSHIFT(f->width, d->log2_chroma_w) : f->width;
            int ph = k ? AV_CEIL_RSHIFT(f->height, d->log2_chroma_h) : f->height;
            v->raw = realloc(v->raw, v->size + (size_t)bytes * pw * ph);
            for (int y = 0; y < ph; y++) {
                if (fread(f->data[k] + y * f->linesize[k], bytes, pw, source) != (size_t)pw) die("short input", 0);
                memcpy(v->raw + v->size, f->data[k] + y * f->linesize[k], (size_t)bytes * pw);
                v->size += (size_t)bytes * pw;
            }
        }
        if (v->c->flags & AV_CODEC_FLAG_QSCALE) f->quality = v->c->global_quality;
        e = avcodec_send_frame(v->c, f);
    } else e = avcodec_send_frame(v->c, NULL);
    if (e < 0) die("send", e);
    av_frame_free(&f);
    while ((e = avcodec_receive_packet(v->c, p)) >= 0) {
        if (p->pts < v->last) v->reordered++;
        v->last = p->pts;
        if (!v->st) continue;
        p->stream_index = v->st->index;
        p->duration = 1;
        av_packet_rescale_ts(p, v->c->time_base, v->st->time_base);
        if ((e = av_interleaved_write_frame(fc, p)) < 0) die("write", e);
        v->packets++;
    }
}

static AVStream *audio_open(void) {
    AVStream *as = avformat_new_stream(fc, NULL);
    as->codecpar->codec_type = AVMEDIA_TYPE_AUDIO; as->codecpar->codec_id = AV_CODEC_ID_PCM_S16LE;
    as->codecpar->sample_rate = 8000; as->codecpar->ch_layout = (AVChannelLayout)AV_CHANNEL_LAYOUT_MONO;
    as->codecpar->bits_per_coded_sample = 16; as->codecpar->block_align = 2; as->time_base = (AVRational){1, 8000};
    return as;
}

static int expected(const AVFrame *f, const struct video *v, size_t *at) {
    const AVPixFmtDescriptor *d = av_pix_fmt_desc_get(v->c->pix_fmt);
    int bytes = d->comp[0].depth > 8 ? 2 : 1;
    if (f->width != v->c->width || f->height != v->c->height || f->format != v->c->pix_fmt) return 0;
    if (!v->lossless) return 1;
    for (int k = 0; k < 3; k++) {
        int pw = k ? AV_CEIL_RSHIFT(f->width, d->log2_chroma_w) : f->width;
        int ph = k ? AV_CEIL_RSHIFT(f->height, d->log2_chroma_h) : f->height;
        for (int y = 0; y < ph; y++) {
            if (*at + bytes * pw > v->size || memcmp(v->raw + *at, f->data[k] + y * f->linesize[k], bytes * pw)) return 0;
            *at += bytes * pw;
        }
    }
    return 1;
}

static int readable(const char *path, const struct video *first, const struct video *second) {
    AVFormatContext *in = NULL;
    AVPacket *p = av_packet_alloc();
    AVFrame *f = av_frame_alloc();
    const AVCodec *codec;
    int s, e, count = 0;
    size_t at = 0;
    if (avformat_open_input(&in, path, NULL, NULL) < 0 || avformat_find_stream_info(in, NULL) < 0) return 0;
    if ((s = av_find_best_stream(in, AVMEDIA_TYPE_VIDEO, -1, -1, &codec, 0)) < 0) return 0;
    AVCodecContext *c = avcodec_alloc_context3(codec);
    avcodec_parameters_to_context(c, in->streams[s]->codecpar);
    if (avcodec_open2(c, codec, NULL) < 0) return 0;
    for (int end = 0; !end;) {
        e = av_read_frame(in, p);
        end = e < 0;
        if (!end && p->stream_index != s) { av_packet_unref(p); continue; }
        if (avcodec_send_packet(c, end ? NULL : p) < 0) return 0;
        av_packet_unref(p);
        while (avcodec_receive_frame(c, f) >= 0)
            count += expected(f, second && c->width == second->c->width && c->height == second->c->height ? second : first, &at);
    }
    return count;
}

static int fill;

static int filled(AVCodecContext *c, AVFrame *f, int flags) {
    int e = avcodec_default_get_buffer2(c, f, flags);
    for (int k = 0; e >= 0 && k < AV_NUM_DATA_POINTERS && f->buf[k]; k++) memset(f->buf[k]->data, fill, f->buf[k]->size);
    return e;
}

/* ffgen --probe FILE FILL: prints what libavcodec makes of a file, whatever state it is in: a line "WIDTH HEIGHT FORMAT" for the
 * stream, then for each picture the same line and its samples, planar. Fails if there is no video to decode. Buffers of pictures hold FILL
 * where the decoder writes nothing. */
static int probe(const char *path) {
    AVFormatContext *in = NULL;
    AVPacket *p = av_packet_alloc();
    AVFrame *f = av_frame_alloc();
    const AVCodec *codec;
    int s, e;
    if (avformat_open_input(&in, path, NULL, NULL) < 0 || avformat_find_stream_info(in, NULL) < 0) return 3;
    if ((s = av_find_best_stream(in, AVMEDIA_TYPE_VIDEO, -1, -1, NULL, 0)) < 0) return 3;
    if (!(codec = avcodec_find_decoder(in->streams[s]->codecpar->codec_id))) return 3;
    AVCodecContext *c = avcodec_alloc_context3(codec);
    c->get_buffer2 = filled;
    if (avcodec_parameters_to_context(c, in->streams[s]->codecpar) < 0 || avcodec_open2(c, codec, NULL) < 0) return 3;
    const char *name = av_get_pix_fmt_name(in->streams[s]->codecpar->format);
    printf("%d %d %s\n", in->streams[s]->codecpar->width, in->streams[s]->codecpar->height, name ? name : "none");
    for (int end = 0; !end;) {
        e = av_read_frame(in, p);
        end = e == AVERROR_EOF;
        if (e < 0 && !end) continue;
        if (!end && p->stream_index != s) { av_packet_unref(p); continue; }
        avcodec_send_packet(c, end ? NULL : p);
        av_packet_unref(p);
        while (avcodec_receive_frame(c, f) >= 0) {
            const AVPixFmtDescriptor *d = av_pix_fmt_desc_get(f->format);
            printf("%d %d %s\n", f->width, f->height, av_get_pix_fmt_name(f->format));
            if (d->nb_components != 3 || (d->flags & (AV_PIX_FMT_FLAG_RGB | AV_PIX_FMT_FLAG_PAL)) || av_pix_fmt_count_planes(f->format) != 3) continue;
            for (int k = 0; k < 3; k++) {
                int pw = k ? AV_CEIL_RSHIFT(f->width, d->log2_chroma_w) : f->width;
                int ph = k ? AV_CEIL_RSHIFT(f->height, d->log2_chroma_h) : f->height;
                for (int y = 0; y < ph; y++)
                    fwrite(f->data[k] + y * f->linesize[k], d->comp[0].depth > 8 ? 2 : 1, pw, stdout);
            }
        }
    }
    return 0;
}

int main(int argc, char **argv) {
    av_log_set_level(AV_LOG_QUIET);
    if (argc == 4 && !strcmp(argv[1], "--probe")) {
        fill = atoi(argv[3]);
        return probe(argv[2]);
    }
    if (argc != 14) die("usage", 0);
    const char *out = argv[1];
    enum AVPixelFormat pf = av_get_pix_fmt(argv[3]);
    int n = atoi(argv[6]), audio = atoi(argv[9]), w2 = atoi(argv[10]), h2 = atoi(argv[11]), e;
    AVRational rate = {atoi(argv[12]), atoi(argv[13])};
    struct video a, b;
    AVStream *as = NULL;
    int two = !strcmp(argv[2], "libvpx") && atoi(argv[7]) > 0;
    source = stdin;
    av_log_set_level(AV_LOG_ERROR);
    if ((e = avformat_alloc_output_context2(&fc, NULL, NULL, out)) < 0) die("container", e);
    fc->flags |= AVFMT_FLAG_BITEXACT;
    if (two) {
        size_t size = (size_t)n * (atoi(argv[4]) + 1) * (atoi(argv[5]) + 1) * 6;
        char *all = malloc(size + 1);
        size = fread(all, 1, size, stdin);
        source = fmemopen(all, size, "r");
        video_open(&a, argv[2], pf, atoi(argv[4]), atoi(argv[5]), 0, 0, rate, 1);
        for (int i = 0; i <= n; i++) video_frame(&a, i, n);
        if (!a.c->stats_out) die("first pass", 0);
        stats = a.c->stats_out;
        rewind(source);
    }
    if (audio == 2) as = audio_open();
    video_open(&a, argv[2], pf, atoi(argv[4]), atoi(argv[5]), atoi(argv[7]), atoi(argv[8]), rate, two ? 2 : 0);
    if (w2) video_open(&b, "ffv1", pf, w2, h2, 0, 1, rate, 0);
    if (audio == 1) as = audio_open();
    if ((e = avio_open(&fc->pb, out, AVIO_FLAG_WRITE)) < 0) die("avio", e);
    if ((e = avformat_write_header(fc, NULL)) < 0) die("header", e);
    for (int i = 0; i <= n; i++) {
        video_frame(&a, i, n);
        if (w2) video_frame(&b, i, n);
        if (as && i < n) {
            AVPacket *q = av_packet_alloc();
            av_new_packet(q, 640);
            memset(q->data, i, 640);
            q->stream_index = as->index; q->pts = q->dts = i * 320; q->duration = 320;
            av_packet_rescale_ts(q, (AVRational){1, 8000}, as->time_base);
            if ((e = av_interleaved_write_frame(fc, q)) < 0) die("audio", e);
            av_packet_free(&q);
        }
    }
    if ((e = av_write_trailer(fc)) < 0) die("trailer", e);
    avio_closep(&fc->pb);
    printf("%d %d %d\n", a.packets, a.reordered, readable(out, &a, w2 ? &b : NULL));
    return 0;
}
