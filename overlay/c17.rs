/// C17: predefined errors convert to the ERROR-CODE of their RFC, and never panic.
pub mod c17 {
    use super::*;
    use crate::seqs::*;
    use crate::shim::*;
    use crate::bytecodec::*;
    use crate::rfc5389::attributes::*;

    pub open spec fn is_code(r: ErrorCode, code: int, reason: Seq<char>) -> bool { r.code == code && r.reason_phrase@ == reason && 300 <= r.code <= 599 }
    pub fn role_conflict(e: crate::rfc5245::errors::RoleConflict) -> (r: ErrorCode) ensures is_code(r, 487, "Role Conflict"@) { broadcast use contents; let _ = "Role Conflict".as_bytes().len(); ErrorCode::from(e) }
    pub fn try_alternate(e: crate::rfc5389::errors::TryAlternate) -> (r: ErrorCode) ensures is_code(r, 300, "Try Alternate"@) { broadcast use contents; let _ = "Try Alternate".as_bytes().len(); ErrorCode::from(e) }
    pub fn bad_request(e: crate::rfc5389::errors::BadRequest) -> (r: ErrorCode) ensures is_code(r, 400, "Bad Request"@) { broadcast use contents; let _ = "Bad Request".as_bytes().len(); ErrorCode::from(e) }
    pub fn unauthorized(e: crate::rfc5389::errors::Unauthorized) -> (r: ErrorCode) ensures is_code(r, 401, "Unauthorized"@) { broadcast use contents; let _ = "Unauthorized".as_bytes().len(); ErrorCode::from(e) }
    pub fn unknown_attribute(e: crate::rfc5389::errors::UnknownAttribute) -> (r: ErrorCode) ensures is_code(r, 420, "Unknown Attribute"@) { broadcast use contents; let _ = "Unknown Attribute".as_bytes().len(); ErrorCode::from(e) }
    pub fn stale_nonce(e: crate::rfc5389::errors::StaleNonce) -> (r: ErrorCode) ensures is_code(r, 438, "Stale Nonce"@) { broadcast use contents; let _ = "Stale Nonce".as_bytes().len(); ErrorCode::from(e) }
    pub fn server_error(e: crate::rfc5389::errors::ServerError) -> (r: ErrorCode) ensures is_code(r, 500, "Server Error"@) { broadcast use contents; let _ = "Server Error".as_bytes().len(); ErrorCode::from(e) }
    pub fn forbidden(e: crate::rfc5766::errors::Forbidden) -> (r: ErrorCode) ensures is_code(r, 403, "Forbidden"@) { broadcast use contents; let _ = "Forbidden".as_bytes().len(); ErrorCode::from(e) }
    pub fn allocation_mismatch(e: crate::rfc5766::errors::AllocationMismatch) -> (r: ErrorCode) ensures is_code(r, 437, "Allocation Mismatch"@) { broadcast use contents; let _ = "Allocation Mismatch".as_bytes().len(); ErrorCode::from(e) }
    pub fn wrong_credentials(e: crate::rfc5766::errors::WrongCredentials) -> (r: ErrorCode) ensures is_code(r, 441, "Wrong Credentials"@) { broadcast use contents; let _ = "Wrong Credentials".as_bytes().len(); ErrorCode::from(e) }
    pub fn unsupported_transport_protocol(e: crate::rfc5766::errors::UnsupportedTransportProtocol) -> (r: ErrorCode) ensures is_code(r, 442, "Unsupported Transport Protocol"@) { broadcast use contents; let _ = "Unsupported Transport Protocol".as_bytes().len(); ErrorCode::from(e) }
    pub fn allocation_quota_reached(e: crate::rfc5766::errors::AllocationQuotaReached) -> (r: ErrorCode) ensures is_code(r, 486, "Allocation Quota Reached"@) { broadcast use contents; let _ = "Allocation Quota Reached".as_bytes().len(); ErrorCode::from(e) }
    pub fn insufficient_capacity(e: crate::rfc5766::errors::InsufficientCapacity) -> (r: ErrorCode) ensures is_code(r, 508, "Insufficient Capacity"@) { broadcast use contents; let _ = "Insufficient Capacity".as_bytes().len(); ErrorCode::from(e) }
    pub fn mobility_forbidden(e: crate::rfc8016::errors::MobilityForbidden) -> (r: ErrorCode) ensures is_code(r, 405, "Mobility Forbidden"@) { broadcast use contents; let _ = "Mobility Forbidden".as_bytes().len(); ErrorCode::from(e) }
    pub fn address_family_not_supported(e: crate::rfc8656::errors::AddressFamilyNotSupported) -> (r: ErrorCode) ensures is_code(r, 440, "Address Family not Supported"@) { broadcast use contents; let _ = "Address Family not Supported".as_bytes().len(); ErrorCode::from(e) }
    pub fn peer_address_family_mismatch(e: crate::rfc8656::errors::PeerAddressFamilyMismatch) -> (r: ErrorCode) ensures is_code(r, 443, "Peer Address Family Mismatch"@) { broadcast use contents; let _ = "Peer Address Family Mismatch".as_bytes().len(); ErrorCode::from(e) }
    /// a broken-message report is the sender's fault
    pub fn broken_message(b: crate::message::BrokenMessage) -> (r: ErrorCode) ensures is_code(r, 400, "Bad Request"@)
    { broadcast use contents; let _ = "Bad Request".as_bytes().len(); ErrorCode::from(Error::from(b)) }
    /// a codec error: whose fault it was
    pub fn codec_error(e: Error) -> (r: ErrorCode)
        ensures if e.kind == ErrorKind::InvalidInput { is_code(r, 400, "Bad Request"@) } else { is_code(r, 500, "Server Error"@) }
    { broadcast use contents; let _ = "Bad Request".as_bytes().len(); let _ = "Server Error".as_bytes().len(); ErrorCode::from(e) }
}
