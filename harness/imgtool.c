/*
 * imgtool gen DIR SEED N   writes N images (and prints their names)
 * imgtool dist             file names on stdin: "V i ok" per file, then "D i j floor(distance*1e6) near rank exact" per
 *                          decodable pair (rank: how many of the five limits the distance reaches, near: depends on the order of the two)
 */
#include <gd.h>
#include <math.h>
#include <puzzle.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static unsigned long long rs;
static unsigned rnd(void) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned) (rs >> 33); }

static gdImagePtr base(int w, int h)
{
    gdImagePtr im = gdImageCreateTrueColor(w, h);
    int kind = rnd() % 5, k = 1 + rnd() % 6;
    int a = rnd() % 256, b = rnd() % 256;
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++) {
            int v;
            switch (kind) {
            case 0: v = a; break;
            case 1: v = (x * 255 * k / w) & 255; break;
            case 2: v = (y * 255 * k / h) & 255; break;
            case 3: v = ((x * k * 2 / w) + (y * k * 2 / h)) & 1 ? a : b; break;
            default: v = (int) (127 + 120 * sin((double) x * k / w * 6.28) * cos((double) y * k / h * 6.28));
            }
            gdImageSetPixel(im, x, y, gdTrueColor(v, v, (v + a) & 255));
        }
    if (rnd() % 4 == 0) {
        /* a few plain squares on a plain ground, mirrored now and then: simple signatures, round distances */
        gdImageFilledRectangle(im, 0, 0, w, h, gdTrueColor(128, 128, 128));
        int n = 1 + rnd() % 2, sq = 1 + rnd() % 4;
        for (int i = 0; i < n; i++) {
            int x = rnd() % 9 * w / 9, y = rnd() % 9 * h / 9, g = rnd() % 2 * 255;
            gdImageFilledRectangle(im, x, y, x + sq * w / 9, y + sq * h / 9, gdTrueColor(g, g, g));
        }
        return im;
    }
    int n = rnd() % 5;
    for (int i = 0; i < n; i++) {
        int g = rnd() % 256;
        gdImageFilledRectangle(im, rnd() % w, rnd() % h, rnd() % w, rnd() % h, gdTrueColor(g, g, g));
    }
    return im;
}

static gdImagePtr variant(gdImagePtr s)
{
    int w = gdImageSX(s), h = gdImageSY(s);
    int nw = w, nh = h;
    if (rnd() % 2) { nw = w * (60 + rnd() % 80) / 100 + 1; nh = h * (60 + rnd() % 80) / 100 + 1; }
    gdImagePtr d = gdImageCreateTrueColor(nw, nh);
    gdImageCopyResampled(d, s, 0, 0, 0, 0, nw, nh, w, h);
    int k = rnd() % 3 ? rnd() % 2 : rnd() % 8;
    for (int i = 0; i < k; i++) {
        int g = rnd() % 256, x = rnd() % nw, y = rnd() % nh, q = 1 + rnd() % 4, e = 1 + rnd() % (nw / (2 * q) + 1), f = 1 + rnd() % (nh / (2 * q) + 1);
        gdImageFilledRectangle(d, x, y, x + e, y + f, gdTrueColor(g, g, g));
    }
    if (rnd() % 3 == 0)
        for (int y = 0; y < nh; y++)
            for (int x = 0; x < nw; x++) {
                int p = gdImageGetPixel(d, x, y), o = (int) (rnd() % 41) - 20;
                int r = gdTrueColorGetRed(p) + o;
                r = r < 0 ? 0 : r > 255 ? 255 : r;
                gdImageSetPixel(d, x, y, gdTrueColor(r, r, r));
            }
    return d;
}

static void save(gdImagePtr im, const char *path, int f)
{
    FILE *o = fopen(path, "wb");
    if (f == 0) gdImageGif(im, o);
    else if (f == 1) gdImagePng(im, o);
    else gdImageJpeg(im, o, 60 + rnd() % 40);
    fclose(o);
}

int main(int c, char **v)
{
    if (c > 4 && !strcmp(v[1], "gen")) {
        rs = strtoull(v[3], 0, 10) * 77777 + 1;
        int n = atoi(v[4]);
        gdImagePtr all[4096];
        int m = 0;
        for (int i = 0; i < n; i++) {
            gdImagePtr im;
            if (m && rnd() % 4) im = variant(all[rnd() % m]);
            else {
                unsigned q = rnd() % 20;
                im = q == 3 ? base(300 + rnd() % 900, 300 + rnd() % 900) : q == 4 ? base(rnd() % 2 ? 4999 + rnd() % 2 : 1000 + rnd() % 4000, 5 + rnd() % 40) : q == 5 ? base(5 + rnd() % 40, rnd() % 2 ? 4999 + rnd() % 2 : 1000 + rnd() % 4000) : q == 0 ? base(1, 1) : q == 1 ? base(5001 + rnd() % 3, 3) : q == 2 ? base(3, 5000 + rnd() % 3) : base(8 + rnd() % 90, 8 + rnd() % 90);
            }
            if ((long) gdImageSX(im) * gdImageSY(im) < 300000 && gdImageSX(im) <= 5000 && gdImageSY(im) < 5001) all[m++] = im;
            char path[4096];
            snprintf(path, sizeof path, "%s/%d", v[2], i);
            save(im, path, rnd() % 3);
        }
        return 0;
    }
    static char *names[4096];
    static PuzzleCvec cv[4096];
    static int ok[4096];
    char line[4096];
    int n = 0;
    PuzzleContext ctx;
    puzzle_init_context(&ctx);
    puzzle_set_max_width(&ctx, 5000);
    puzzle_set_max_height(&ctx, 5000);
    puzzle_set_lambdas(&ctx, 13);
    while (fgets(line, sizeof line, stdin)) {
        line[strcspn(line, "\n")] = 0;
        names[n++] = strdup(line);
    }
    for (int i = 0; i < n; i++) {
        puzzle_init_cvec(&ctx, &cv[i]);
        ok[i] = puzzle_fill_cvec_from_file(&ctx, &cv[i], names[i]) == 0;
        printf("V %d %d\n", i, ok[i]);
    }
    for (int i = 0; i < n; i++)
        for (int j = i + 1; j < n; j++)
            if (ok[i] && ok[j]) {
                double d = puzzle_vector_normalized_distance(&ctx, &cv[i], &cv[j], 0);
                double e = puzzle_vector_normalized_distance(&ctx, &cv[j], &cv[i], 0);
                static const double lim[5] = { 0.2, 0.3, 0.5, 0.6, 0.7 };
                int r = 0, q = 0, x = 0;
                for (int k = 0; k < 5; k++) { r += d >= lim[k]; q += e >= lim[k]; x |= d == lim[k]; }
                printf("D %d %d %d %d %d %d\n", i, j, d > 100 ? 100000000 : (int) floor(d * 1e6), r != q, r, x);
            }
    return 0;
}
