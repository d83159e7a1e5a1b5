// Declaration stub for the absent sundown submodule (analysis only).
#pragma once
#include "buffer.h"
extern "C" {
enum mkd_extensions { MKDEXT_NO_INTRA_EMPHASIS = 1, MKDEXT_TABLES = 2, MKDEXT_FENCED_CODE = 4, MKDEXT_AUTOLINK = 8,
    MKDEXT_STRIKETHROUGH = 16, MKDEXT_SPACE_HEADERS = 64, MKDEXT_SUPERSCRIPT = 128, MKDEXT_LAX_SPACING = 256 };
#define MKD_LIST_ORDERED 1
#define MKD_LI_BLOCK 2
struct src_map_range { size_t loc; size_t len; };
typedef struct src_map_range range;
struct src_map { void** item; size_t size; size_t asize; };
typedef struct src_map src_map;
struct sd_callbacks {
    void (*blockcode)(struct buf*, const struct buf*, const struct buf*, void*);
    void (*blockquote)(struct buf*, const struct buf*, void*);
    void (*blockhtml)(struct buf*, const struct buf*, void*);
    void (*header)(struct buf*, const struct buf*, int, void*);
    void (*hrule)(struct buf*, void*);
    void (*list)(struct buf*, const struct buf*, int, void*);
    void (*listitem)(struct buf*, const struct buf*, int, void*);
    void (*paragraph)(struct buf*, const struct buf*, void*);
    void (*table)(struct buf*, const struct buf*, const struct buf*, void*);
    void (*table_row)(struct buf*, const struct buf*, void*);
    void (*table_cell)(struct buf*, const struct buf*, int, void*);
    void (*blockquote_begin)(void*);
    void (*list_begin)(int, void*);
    void (*listitem_begin)(int, void*);
    void (*block_did_parse)(const src_map*, const uint8_t*, size_t, void*);
};
typedef struct sd_callbacks sd_callbacks;
struct sd_markdown;
struct sd_markdown* sd_markdown_new(unsigned int, size_t, const struct sd_callbacks*, void*);
void sd_markdown_render(struct buf*, const uint8_t*, size_t, struct sd_markdown*);
void sd_markdown_free(struct sd_markdown*);
}
