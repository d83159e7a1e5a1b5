// Declaration stub for the absent sundown submodule (analysis only).
#pragma once
#include <stddef.h>
#include <stdint.h>
extern "C" {
struct buf { uint8_t* data; size_t size; size_t asize; size_t unit; };
struct buf* bufnew(size_t);
void bufrelease(struct buf*);
}
