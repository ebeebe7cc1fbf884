/* Runs the codec of the tree over a file of records, under AddressSanitizer and UndefinedBehaviorSanitizer, with
 * heap buffers of exactly the announced sizes. It judges only what it is told to expect. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "lzf.h"

struct head { unsigned int op, in_len, out_len, want, want_len; };

static unsigned char *take (FILE *f, unsigned int n)
{
  unsigned char *p = malloc (n);
  if (n && fread (p, 1, n, f) != n)
    exit (90);
  return p;
}

static void wrong (unsigned int i, const char *what, unsigned int ret)
{
  printf ("WRONG record %u: %s, returned %u\n", i, what, ret);
  exit (80);
}

int main (int argc, char **argv)
{
  FILE *f = fopen (argv[1], "rb");
  struct head h;
  unsigned int i = 0, failed = 0;
  if (!f || argc != 2)
    return 90;
  setvbuf (stdout, 0, _IONBF, 0);
  for (; fread (&h, sizeof h, 1, f) == 1; i++)
    {
      unsigned char *in = take (f, h.in_len), *keep = malloc (h.in_len), *want = take (f, h.want_len), *out = malloc (h.out_len);
      unsigned int n;
      memcpy (keep, in, h.in_len);
      fprintf (stderr, "\rrecord %u", i);
      alarm (20);
      if (h.op == 'c')
        {
          n = lzf_compress (in, h.in_len, out, h.out_len);
          if (n > h.out_len)
            wrong (i, "more was written than the buffer holds", n);
          if (!n && h.want)
            wrong (i, "a buffer large enough for anything was refused", n);
          if (n)
            {
              unsigned char *exact = malloc (n), *back = malloc (h.in_len);
              unsigned int m;
              memcpy (exact, out, n);
              m = lzf_decompress (exact, n, back, h.in_len);
              if (m != h.in_len || memcmp (back, keep, h.in_len))
                wrong (i, "compressed data does not decompress to itself", m);
              free (exact);
              free (back);
            }
          else
            failed++;
        }
      else
        {
          n = lzf_decompress (in, h.in_len, out, h.out_len);
          if (n != h.want)
            wrong (i, h.want ? "a valid stream was not decompressed" : "a corrupt or oversized stream was not refused", n);
          if (n && (n != h.want_len || memcmp (out, want, n)))
            wrong (i, "a stream decompressed to other bytes", n);
          if (!n)
            failed++;
        }
      if (memcmp (in, keep, h.in_len))
        wrong (i, "the input was changed", n);
      free (in);
      free (keep);
      free (want);
      free (out);
    }
  printf ("\nDONE %u records %u refused\n", i, failed);
  return 0;
}
