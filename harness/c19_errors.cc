// C19: every error code of every category, and every integer of a range.
#include <future>
#include <limits>
#include <map>
#include <set>
#include <string>

#include "maidsafe/common/error.h"
#include "maidsafe/common/serialisation/serialisation.h"

#include "common/vf.h"

namespace {
using namespace maidsafe;  // NOLINT

struct Entry {
  std::error_code code;
  std::error_condition condition;
  std::string name;
};

// the conditions other than the code itself
const std::map<std::pair<std::string, int>, std::errc>& conditions() {
  static const std::map<std::pair<std::string, int>, std::errc> c = [] {
    std::map<std::pair<std::string, int>, std::errc> m;
    auto add = [&m](std::error_code e, std::errc x) { m[{e.category().name(), e.value()}] = x; };
    add(make_error_code(CommonErrors::null_pointer), std::errc::invalid_argument);
    add(make_error_code(CommonErrors::invalid_identity), std::errc::invalid_argument);
    add(make_error_code(CommonErrors::invalid_key_size), std::errc::invalid_argument);
    add(make_error_code(CommonErrors::outside_of_bounds), std::errc::invalid_argument);
    add(make_error_code(CommonErrors::invalid_argument), std::errc::invalid_argument);
    add(make_error_code(CommonErrors::file_too_large), std::errc::file_too_large);
    add(make_error_code(CommonErrors::cannot_invoke_from_this_thread), std::errc::operation_not_permitted);
    add(make_error_code(CommonErrors::unable_to_handle_request), std::errc::not_supported);
    add(make_error_code(CommonErrors::filesystem_io_error), std::errc::io_error);
    add(make_error_code(CommonErrors::not_a_directory), std::errc::not_a_directory);
    add(make_error_code(AsymmErrors::data_empty), std::errc::invalid_argument);
    add(make_error_code(AsymmErrors::invalid_file), std::errc::invalid_argument);
    add(make_error_code(AsymmErrors::invalid_signature), std::errc::invalid_argument);
    add(make_error_code(AsymmErrors::signature_empty), std::errc::invalid_argument);
    add(make_error_code(AsymmErrors::signing_error), std::errc::invalid_argument);
    add(make_error_code(RoutingErrors::timed_out), std::errc::timed_out);
    add(make_error_code(NfsErrors::timed_out), std::errc::timed_out);
    add(make_error_code(DriveErrors::permission_denied), std::errc::permission_denied);
    add(make_error_code(DriveErrors::file_exists), std::errc::file_exists);
    add(make_error_code(VaultErrors::operation_not_supported), std::errc::not_supported);
    add(make_error_code(VaultErrors::permission_denied), std::errc::permission_denied);
    add(make_error_code(VaultManagerErrors::connection_not_found), std::errc::not_connected);
    add(make_error_code(VaultManagerErrors::failed_to_connect), std::errc::connection_refused);
    add(make_error_code(VaultManagerErrors::connection_aborted), std::errc::connection_aborted);
    add(make_error_code(VaultManagerErrors::ipc_message_too_large), std::errc::message_size);
    add(make_error_code(VaultManagerErrors::timed_out), std::errc::timed_out);
    return m;
  }();
  return c;
}

std::vector<Entry> all;
template <typename Enum, typename Error>
void category(const std::string& name, Enum first, Enum last, const std::error_category& cat) {
  VF_CHECK(name == cat.name(), "the category " << name << " calls itself " << cat.name());
  std::set<std::string> messages;
  std::string invalid = cat.message(static_cast<int>(last) + 1);
  VF_CHECK(!invalid.empty(), name << ": empty message for an unknown code");
  for (int i = static_cast<int>(first); i <= static_cast<int>(last); ++i) {
    Enum e = static_cast<Enum>(i);
    std::string what = name + " error " + std::to_string(i);
    std::error_code code = make_error_code(e);
    VF_CHECK(code.value() == i && &code.category() == &cat, what << ": the code has value " << code.value() << " of " << code.category().name());
    VF_CHECK(std::error_code(e) == code, what << ": another code by conversion");
    std::error_condition condition = make_error_condition(e);
    VF_CHECK(condition.value() == i && &condition.category() == &cat, what << ": the condition");
    Error error = MakeError(e);
    VF_CHECK(error.code() == code, what << ": MakeError gives the code " << error.code());
    VF_CHECK(!code.message().empty() && messages.insert(code.message()).second, what << ": message '" << code.message() << "' is empty or that of another");
    VF_CHECK(code.message() != invalid || code == make_error_code(CommonErrors::unknown), what << " is unknown to its category");
    VF_CHECK(std::string(error.what()).find(code.message()) != std::string::npos, what << ": what() does not contain the message");
    try {
      throw MakeError(e);
    } catch (const maidsafe_error& m) {
      VF_CHECK(m.code() == code, what << ": thrown as " << m.code());
    }
    // the default condition
    auto it = conditions().find({name, i});
    std::error_condition want = it == conditions().end() ? std::error_condition(i, cat) : std::make_error_condition(it->second);
    VF_CHECK(code.default_error_condition() == want, what << ": default condition " << code.default_error_condition().category().name() << ":" << code.default_error_condition().value());
    VF_CHECK(code == want, what << " does not equal its condition");
    all.push_back({code, condition, what});
    ++vf::transitions;
    vf::state(vf::hash_str(what));
  }
}
template <typename T>
void collect(T) {
  all.clear();
  category<CommonErrors, common_error>("MaidSafe Common", CommonErrors::success, CommonErrors::defaulted, GetCommonCategory());
  category<AsymmErrors, asymm_error>("MaidSafe Asymmetric Crypto", AsymmErrors::keys_generation_error, AsymmErrors::signing_error, GetAsymmCategory());
  category<PassportErrors, passport_error>("MaidSafe Identity Ring", PassportErrors::id_already_exists, PassportErrors::id_already_exists, GetPassportCategory());
  category<EncryptErrors, encrypt_error>("MaidSafe Encryption", EncryptErrors::bad_sequence, EncryptErrors::encryptor_closed, GetEncryptCategory());
  category<RoutingErrors, routing_error>("MaidSafe Routing", RoutingErrors::timed_out, RoutingErrors::not_connected, GetRoutingCategory());
  category<NfsErrors, nfs_error>("MaidSafe Network Filesystem", NfsErrors::failed_to_get_data, NfsErrors::timed_out, GetNfsCategory());
  category<DriveErrors, drive_error>("MaidSafe Drive", DriveErrors::no_drive_letter_available, DriveErrors::driver_not_installed, GetDriveCategory());
  category<VaultErrors, vault_error>("MaidSafe Vault", VaultErrors::failed_to_join_network, VaultErrors::too_few_entries_to_resolve, GetVaultCategory());
  category<VaultManagerErrors, vault_manager_error>("MaidSafe VaultManager", VaultManagerErrors::connection_not_found, VaultManagerErrors::vault_terminated, GetVaultManagerCategory());
  category<ApiErrors, api_error>("Client", ApiErrors::kPasswordFailure, ApiErrors::kPasswordFailure, GetApiCategory());
}

void codes() {
  if (!vf::take())
    return;
  collect(0);
  vf::sample(std::to_string(all.size()) + " error codes of 10 categories");
}
void pairs() {
  collect(0);
  std::map<int, std::string> integers;
  for (auto& e : all) {
    if (!vf::take())
      continue;
    for (auto& f : all) {
      bool same = &e == &f;
      VF_CHECK((e.code == f.code) == same && (e.condition == f.condition) == same, e.name << " and " << f.name);
      VF_CHECK((ErrorToInt(maidsafe_error(e.code)) == ErrorToInt(maidsafe_error(f.code))) == same, e.name << " and " << f.name << " have the same integer");
      ++vf::transitions;
    }
    int i = ErrorToInt(maidsafe_error(e.code));
    maidsafe_error back = IntToError(i);
    VF_CHECK(back.code() == e.code && &back.code().category() == &e.code.category(), e.name << " is " << i << ", which is " << back.code().category().name() << " error " << back.code().value());
    VF_CHECK(std::string(back.what()) == maidsafe_error(e.code).what(), e.name << ": the text changes");
    // serialised alone and in a row
    auto s = Serialise(maidsafe_error(e.code));
    VF_CHECK(Parse<maidsafe_error>(s).code() == e.code, e.name << " does not survive serialisation");
    auto two = Serialise(maidsafe_error(e.code), 77, maidsafe_error(e.code));
    maidsafe_error x, y;
    int n = 0;
    Parse(two, x, n, y);
    VF_CHECK(x.code() == e.code && y.code() == e.code && n == 77, e.name << " does not survive serialisation");
    for (size_t cut = 0; cut < s.size(); ++cut) {
      bool thrown = false;
      try {
        Parse<maidsafe_error>(SerialisedData(s.begin(), s.begin() + static_cast<long>(cut)));
      } catch (const std::exception&) {
        thrown = true;
      }
      VF_CHECK(thrown, e.name << ": truncated serialised error accepted");
    }
    vf::outcome(static_cast<uint64_t>(static_cast<uint32_t>(i)));
    ++vf::histories;
  }
  vf::sample("every pair of error codes; integers and serialised forms of all");
}

// foreign categories have no integer
void foreign() {
  if (!vf::take())
    return;
  for (auto& c : {std::make_error_code(std::errc::invalid_argument), std::error_code(5, std::system_category()), std::make_error_code(std::future_errc::no_state)}) {
    bool thrown = false;
    try {
      ErrorToInt(maidsafe_error(c));
    } catch (const maidsafe_error&) {
      thrown = true;
    }
    VF_CHECK(thrown, "an error of the category " << c.category().name() << " got an integer");
  }
}

bool integer(long i, const std::set<int>& valid) {
  int v = static_cast<int>(i);
  try {
    maidsafe_error e = IntToError(v);
    // either this integer's own error, or one that no error code has
    std::string cat = e.code().category().name();
    bool is_code = false;
    for (size_t a = 0; a < all.size() && !is_code; ++a)
      is_code = all[a].code == e.code();
    VF_CHECK(is_code == (valid.count(v) != 0), v << " turned into " << cat << " error " << e.code().value());
    VF_CHECK(!is_code || ErrorToInt(e) == v, v << " turned into the error of " << ErrorToInt(e));
    return is_code;
  } catch (const maidsafe_error&) {
    VF_CHECK(valid.count(v) == 0, v << " is an error code's, but rejected");
  }
  return false;
}
void integers() {
  collect(0);
  std::set<int> valid;
  for (auto& a : all)
    valid.insert(ErrorToInt(maidsafe_error(a.code)));
  auto range = [&](long from, long to, long step) {
    for (long lo = from; lo <= to; lo += 1000 * step)
      if (vf::take()) {
        for (long i = lo; i <= to && i < lo + 1000 * step; i += step) {
          vf::outcome(integer(i, valid) + 10u);
          ++vf::transitions;
        }
        vf::sample("integers from " + std::to_string(lo));
      }
  };
  for (int k = -12; k <= 12; ++k)
    range(k * 100000L - 300, k * 100000L + 300, 1);
  range(-2000000, 2000000, vf::thorough ? 1 : 7);
  range(-1100000, -100000, 1);
  if (vf::thorough) {
    range(std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), 4999);
  }
  range(std::numeric_limits<int>::min() + 1L, std::numeric_limits<int>::min() + 500L, 1);
  range(std::numeric_limits<int>::max() - 500L, std::numeric_limits<int>::max(), 1);
  range(std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), 1000003);
}
}  // unnamed namespace

int main(int argc, char** argv) {
  return vf::run(argc, argv, {{"codes", codes}, {"pairs", pairs}, {"foreign", foreign}, {"integers", integers}});
}
