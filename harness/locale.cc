// Global C++ locales; built with RTTI, which installing a facet needs.
#include <locale>
#include <string>
// ',' decimal point and '.' thousands separators.
struct Commas : std::numpunct<char> {
  char do_decimal_point() const { return ','; }
  char do_thousands_sep() const { return '.'; }
  std::string do_grouping() const { return "\3"; }
};
struct Ones : std::numpunct<char> {
  char do_decimal_point() const { return '7'; }
  char do_thousands_sep() const { return '-'; }
  std::string do_grouping() const { return "\1"; }
  std::string do_truename() const { return "0"; }
  std::string do_falsename() const { return "1"; }
};
void InstallLocale(const char* kind) {
  std::string k(kind);
  if (k == "ones") std::locale::global(std::locale(std::locale::classic(), new Ones));
  else if (k == "commas") std::locale::global(std::locale(std::locale::classic(), new Commas));
  else std::locale::global(std::locale::classic());
}
