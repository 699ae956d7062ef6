/* Linked into the inspection program under test: an allocation may fail, leaks
   at exit are not of interest, and a sanitizer report has its own status. */
const char *
__asan_default_options (void)
{
  return "detect_leaks=0:exitcode=77:allocator_may_return_null=1";
}
