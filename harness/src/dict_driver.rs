// Generated by tools/gen_driver.py: do not edit.
#![allow(unused_imports, unused_variables, clippy::all)]
use crate::dictroot;
use crate::exec::*;
use radius::core::avp::AVPError;
use radius::core::packet::Packet;
use radius::core::tag::Tag;

fn add0(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_user_name(p, txt(x)); Ok(())
}
fn look0(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_user_name(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all0(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_user_name(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add1(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_user_password(p, x)
}
fn look1(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_user_password(p).map(|r| r.map(|y| v(y)))
}
fn all1(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_user_password(p)?.into_iter().map(|y| v(y)).collect())
}
fn add2(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_chap_password(p, x); Ok(())
}
fn look2(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_chap_password(p).map(|y| Ok(v(y)))
}
fn all2(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_chap_password(p).into_iter().map(|y| v(y)).collect())
}
fn add3(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_nas_ip_address(p, &ip4(x)); Ok(())
}
fn look3(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_nas_ip_address(p).map(|r| r.map(|y| v(y.octets().to_vec())))
}
fn all3(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_nas_ip_address(p)?.into_iter().map(|y| v(y.octets().to_vec())).collect())
}
fn add4(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_nas_port(p, be4(x)); Ok(())
}
fn look4(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_nas_port(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all4(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_nas_port(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add5(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_service_type(p, be4(x)); Ok(())
}
fn look5(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_service_type(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all5(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_service_type(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add6(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_framed_protocol(p, be4(x)); Ok(())
}
fn look6(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_framed_protocol(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all6(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_framed_protocol(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add7(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_framed_ip_address(p, &ip4(x)); Ok(())
}
fn look7(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_framed_ip_address(p).map(|r| r.map(|y| v(y.octets().to_vec())))
}
fn all7(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_framed_ip_address(p)?.into_iter().map(|y| v(y.octets().to_vec())).collect())
}
fn add8(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_framed_ip_netmask(p, &ip4(x)); Ok(())
}
fn look8(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_framed_ip_netmask(p).map(|r| r.map(|y| v(y.octets().to_vec())))
}
fn all8(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_framed_ip_netmask(p)?.into_iter().map(|y| v(y.octets().to_vec())).collect())
}
fn add9(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_framed_routing(p, be4(x)); Ok(())
}
fn look9(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_framed_routing(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all9(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_framed_routing(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add10(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_filter_id(p, txt(x)); Ok(())
}
fn look10(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_filter_id(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all10(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_filter_id(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add11(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_framed_mtu(p, be4(x)); Ok(())
}
fn look11(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_framed_mtu(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all11(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_framed_mtu(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add12(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_framed_compression(p, be4(x)); Ok(())
}
fn look12(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_framed_compression(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all12(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_framed_compression(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add13(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_login_ip_host(p, &ip4(x)); Ok(())
}
fn look13(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_login_ip_host(p).map(|r| r.map(|y| v(y.octets().to_vec())))
}
fn all13(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_login_ip_host(p)?.into_iter().map(|y| v(y.octets().to_vec())).collect())
}
fn add14(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_login_service(p, be4(x)); Ok(())
}
fn look14(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_login_service(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all14(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_login_service(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add15(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_login_tcp_port(p, be4(x)); Ok(())
}
fn look15(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_login_tcp_port(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all15(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_login_tcp_port(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add16(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_reply_message(p, txt(x)); Ok(())
}
fn look16(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_reply_message(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all16(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_reply_message(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add17(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_callback_number(p, txt(x)); Ok(())
}
fn look17(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_callback_number(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all17(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_callback_number(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add18(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_callback_id(p, txt(x)); Ok(())
}
fn look18(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_callback_id(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all18(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_callback_id(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add19(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_framed_route(p, txt(x)); Ok(())
}
fn look19(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_framed_route(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all19(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_framed_route(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add20(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_framed_ipx_network(p, &ip4(x)); Ok(())
}
fn look20(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_framed_ipx_network(p).map(|r| r.map(|y| v(y.octets().to_vec())))
}
fn all20(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_framed_ipx_network(p)?.into_iter().map(|y| v(y.octets().to_vec())).collect())
}
fn add21(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_state(p, x); Ok(())
}
fn look21(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_state(p).map(|y| Ok(v(y)))
}
fn all21(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_state(p).into_iter().map(|y| v(y)).collect())
}
fn add22(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_class(p, x); Ok(())
}
fn look22(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_class(p).map(|y| Ok(v(y)))
}
fn all22(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_class(p).into_iter().map(|y| v(y)).collect())
}
fn add23(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    p.add(radius::core::avp::AVP::from_bytes(dictroot::rfc2865::VENDOR_SPECIFIC_TYPE, x)); Ok(())
}
fn look23(p: &Packet) -> Option<Result<Val, AVPError>> {
    p.lookup(dictroot::rfc2865::VENDOR_SPECIFIC_TYPE).map(|y| Ok(v(y.encode_bytes())))
}
fn all23(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(p.lookup_all(dictroot::rfc2865::VENDOR_SPECIFIC_TYPE).iter().map(|y| v(y.encode_bytes())).collect())
}
fn add24(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_session_timeout(p, be4(x)); Ok(())
}
fn look24(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_session_timeout(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all24(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_session_timeout(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add25(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_idle_timeout(p, be4(x)); Ok(())
}
fn look25(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_idle_timeout(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all25(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_idle_timeout(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add26(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_termination_action(p, be4(x)); Ok(())
}
fn look26(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_termination_action(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all26(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_termination_action(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add27(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_called_station_id(p, txt(x)); Ok(())
}
fn look27(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_called_station_id(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all27(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_called_station_id(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add28(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_calling_station_id(p, txt(x)); Ok(())
}
fn look28(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_calling_station_id(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all28(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_calling_station_id(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add29(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_nas_identifier(p, txt(x)); Ok(())
}
fn look29(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_nas_identifier(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all29(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_nas_identifier(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add30(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_proxy_state(p, x); Ok(())
}
fn look30(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_proxy_state(p).map(|y| Ok(v(y)))
}
fn all30(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_proxy_state(p).into_iter().map(|y| v(y)).collect())
}
fn add31(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_login_lat_service(p, txt(x)); Ok(())
}
fn look31(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_login_lat_service(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all31(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_login_lat_service(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add32(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_login_lat_node(p, txt(x)); Ok(())
}
fn look32(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_login_lat_node(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all32(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_login_lat_node(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add33(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_login_lat_group(p, x); Ok(())
}
fn look33(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_login_lat_group(p).map(|y| Ok(v(y)))
}
fn all33(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_login_lat_group(p).into_iter().map(|y| v(y)).collect())
}
fn add34(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_framed_apple_talk_link(p, be4(x)); Ok(())
}
fn look34(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_framed_apple_talk_link(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all34(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_framed_apple_talk_link(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add35(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_framed_apple_talk_network(p, be4(x)); Ok(())
}
fn look35(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_framed_apple_talk_network(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all35(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_framed_apple_talk_network(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add36(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_framed_apple_talk_zone(p, txt(x)); Ok(())
}
fn look36(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_framed_apple_talk_zone(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all36(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_framed_apple_talk_zone(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add37(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_chap_challenge(p, x); Ok(())
}
fn look37(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_chap_challenge(p).map(|y| Ok(v(y)))
}
fn all37(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_chap_challenge(p).into_iter().map(|y| v(y)).collect())
}
fn add38(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_nas_port_type(p, be4(x)); Ok(())
}
fn look38(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_nas_port_type(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all38(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_nas_port_type(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add39(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_port_limit(p, be4(x)); Ok(())
}
fn look39(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_port_limit(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all39(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_port_limit(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add40(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2865::add_login_lat_port(p, txt(x)); Ok(())
}
fn look40(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2865::lookup_login_lat_port(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all40(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2865::lookup_all_login_lat_port(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add41(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2866::add_acct_status_type(p, be4(x)); Ok(())
}
fn look41(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2866::lookup_acct_status_type(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all41(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2866::lookup_all_acct_status_type(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add42(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2866::add_acct_delay_time(p, be4(x)); Ok(())
}
fn look42(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2866::lookup_acct_delay_time(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all42(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2866::lookup_all_acct_delay_time(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add43(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2866::add_acct_input_octets(p, be4(x)); Ok(())
}
fn look43(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2866::lookup_acct_input_octets(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all43(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2866::lookup_all_acct_input_octets(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add44(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2866::add_acct_output_octets(p, be4(x)); Ok(())
}
fn look44(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2866::lookup_acct_output_octets(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all44(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2866::lookup_all_acct_output_octets(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add45(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2866::add_acct_session_id(p, txt(x)); Ok(())
}
fn look45(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2866::lookup_acct_session_id(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all45(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2866::lookup_all_acct_session_id(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add46(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2866::add_acct_authentic(p, be4(x)); Ok(())
}
fn look46(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2866::lookup_acct_authentic(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all46(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2866::lookup_all_acct_authentic(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add47(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2866::add_acct_session_time(p, be4(x)); Ok(())
}
fn look47(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2866::lookup_acct_session_time(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all47(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2866::lookup_all_acct_session_time(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add48(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2866::add_acct_input_packets(p, be4(x)); Ok(())
}
fn look48(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2866::lookup_acct_input_packets(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all48(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2866::lookup_all_acct_input_packets(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add49(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2866::add_acct_output_packets(p, be4(x)); Ok(())
}
fn look49(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2866::lookup_acct_output_packets(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all49(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2866::lookup_all_acct_output_packets(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add50(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2866::add_acct_terminate_cause(p, be4(x)); Ok(())
}
fn look50(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2866::lookup_acct_terminate_cause(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all50(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2866::lookup_all_acct_terminate_cause(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add51(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2866::add_acct_multi_session_id(p, txt(x)); Ok(())
}
fn look51(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2866::lookup_acct_multi_session_id(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all51(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2866::lookup_all_acct_multi_session_id(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add52(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2866::add_acct_link_count(p, be4(x)); Ok(())
}
fn look52(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2866::lookup_acct_link_count(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all52(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2866::lookup_all_acct_link_count(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add53(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2867::add_acct_tunnel_connection(p, txt(x)); Ok(())
}
fn look53(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2867::lookup_acct_tunnel_connection(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all53(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2867::lookup_all_acct_tunnel_connection(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add54(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2867::add_acct_tunnel_packets_lost(p, be4(x)); Ok(())
}
fn look54(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2867::lookup_acct_tunnel_packets_lost(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all54(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2867::lookup_all_acct_tunnel_packets_lost(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add55(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2868::add_tunnel_type(p, t, be4(x)); Ok(())
}
fn look55(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2868::lookup_tunnel_type(p).map(|r| r.map(|y| vt(y.0.to_be_bytes().to_vec(), Some(y.1))))
}
fn all55(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2868::lookup_all_tunnel_type(p)?.into_iter().map(|y| vt(y.0.to_be_bytes().to_vec(), Some(y.1))).collect())
}
fn add56(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2868::add_tunnel_medium_type(p, t, be4(x)); Ok(())
}
fn look56(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2868::lookup_tunnel_medium_type(p).map(|r| r.map(|y| vt(y.0.to_be_bytes().to_vec(), Some(y.1))))
}
fn all56(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2868::lookup_all_tunnel_medium_type(p)?.into_iter().map(|y| vt(y.0.to_be_bytes().to_vec(), Some(y.1))).collect())
}
fn add57(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2868::add_tunnel_client_endpoint(p, t, txt(x)); Ok(())
}
fn look57(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2868::lookup_tunnel_client_endpoint(p).map(|r| r.map(|y| vt(y.0.into_bytes(), y.1)))
}
fn all57(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2868::lookup_all_tunnel_client_endpoint(p)?.into_iter().map(|y| vt(y.0.into_bytes(), y.1)).collect())
}
fn add58(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2868::add_tunnel_server_endpoint(p, t, txt(x)); Ok(())
}
fn look58(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2868::lookup_tunnel_server_endpoint(p).map(|r| r.map(|y| vt(y.0.into_bytes(), y.1)))
}
fn all58(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2868::lookup_all_tunnel_server_endpoint(p)?.into_iter().map(|y| vt(y.0.into_bytes(), y.1)).collect())
}
fn add59(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2868::add_tunnel_password(p, t, x)
}
fn look59(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2868::lookup_tunnel_password(p).map(|r| r.map(|y| vt(y.0, Some(y.1))))
}
fn all59(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2868::lookup_all_tunnel_password(p)?.into_iter().map(|y| vt(y.0, Some(y.1))).collect())
}
fn add60(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2868::add_tunnel_private_group_id(p, t, txt(x)); Ok(())
}
fn look60(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2868::lookup_tunnel_private_group_id(p).map(|r| r.map(|y| vt(y.0.into_bytes(), y.1)))
}
fn all60(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2868::lookup_all_tunnel_private_group_id(p)?.into_iter().map(|y| vt(y.0.into_bytes(), y.1)).collect())
}
fn add61(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2868::add_tunnel_assignment_id(p, t, txt(x)); Ok(())
}
fn look61(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2868::lookup_tunnel_assignment_id(p).map(|r| r.map(|y| vt(y.0.into_bytes(), y.1)))
}
fn all61(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2868::lookup_all_tunnel_assignment_id(p)?.into_iter().map(|y| vt(y.0.into_bytes(), y.1)).collect())
}
fn add62(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2868::add_tunnel_preference(p, t, be4(x)); Ok(())
}
fn look62(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2868::lookup_tunnel_preference(p).map(|r| r.map(|y| vt(y.0.to_be_bytes().to_vec(), Some(y.1))))
}
fn all62(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2868::lookup_all_tunnel_preference(p)?.into_iter().map(|y| vt(y.0.to_be_bytes().to_vec(), Some(y.1))).collect())
}
fn add63(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2868::add_tunnel_client_auth_id(p, t, txt(x)); Ok(())
}
fn look63(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2868::lookup_tunnel_client_auth_id(p).map(|r| r.map(|y| vt(y.0.into_bytes(), y.1)))
}
fn all63(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2868::lookup_all_tunnel_client_auth_id(p)?.into_iter().map(|y| vt(y.0.into_bytes(), y.1)).collect())
}
fn add64(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2868::add_tunnel_server_auth_id(p, t, txt(x)); Ok(())
}
fn look64(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2868::lookup_tunnel_server_auth_id(p).map(|r| r.map(|y| vt(y.0.into_bytes(), y.1)))
}
fn all64(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2868::lookup_all_tunnel_server_auth_id(p)?.into_iter().map(|y| vt(y.0.into_bytes(), y.1)).collect())
}
fn add65(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2869::add_acct_input_gigawords(p, be4(x)); Ok(())
}
fn look65(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2869::lookup_acct_input_gigawords(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all65(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2869::lookup_all_acct_input_gigawords(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add66(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2869::add_acct_output_gigawords(p, be4(x)); Ok(())
}
fn look66(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2869::lookup_acct_output_gigawords(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all66(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2869::lookup_all_acct_output_gigawords(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add67(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2869::add_event_timestamp(p, &date(x)); Ok(())
}
fn look67(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2869::lookup_event_timestamp(p).map(|r| r.map(|y| v(date_octets(y))))
}
fn all67(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2869::lookup_all_event_timestamp(p)?.into_iter().map(|y| v(date_octets(y))).collect())
}
fn add68(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2869::add_arap_password(p, x)
}
fn look68(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2869::lookup_arap_password(p).map(|y| Ok(v(y)))
}
fn all68(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2869::lookup_all_arap_password(p).into_iter().map(|y| v(y)).collect())
}
fn add69(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2869::add_arap_features(p, x)
}
fn look69(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2869::lookup_arap_features(p).map(|y| Ok(v(y)))
}
fn all69(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2869::lookup_all_arap_features(p).into_iter().map(|y| v(y)).collect())
}
fn add70(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2869::add_arap_zone_access(p, be4(x)); Ok(())
}
fn look70(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2869::lookup_arap_zone_access(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all70(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2869::lookup_all_arap_zone_access(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add71(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2869::add_arap_security(p, be4(x)); Ok(())
}
fn look71(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2869::lookup_arap_security(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all71(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2869::lookup_all_arap_security(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add72(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2869::add_arap_security_data(p, txt(x)); Ok(())
}
fn look72(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2869::lookup_arap_security_data(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all72(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2869::lookup_all_arap_security_data(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add73(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2869::add_password_retry(p, be4(x)); Ok(())
}
fn look73(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2869::lookup_password_retry(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all73(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2869::lookup_all_password_retry(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add74(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2869::add_prompt(p, be4(x)); Ok(())
}
fn look74(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2869::lookup_prompt(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all74(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2869::lookup_all_prompt(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add75(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2869::add_connect_info(p, txt(x)); Ok(())
}
fn look75(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2869::lookup_connect_info(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all75(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2869::lookup_all_connect_info(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add76(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2869::add_configuration_token(p, txt(x)); Ok(())
}
fn look76(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2869::lookup_configuration_token(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all76(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2869::lookup_all_configuration_token(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add77(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2869::add_eap_message(p, x); Ok(())
}
fn look77(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2869::lookup_eap_message(p).map(|y| Ok(v(y)))
}
fn all77(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2869::lookup_eap_message(p).into_iter().map(|y| v(y)).collect())
}
fn add78(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2869::add_message_authenticator(p, x); Ok(())
}
fn look78(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2869::lookup_message_authenticator(p).map(|y| Ok(v(y)))
}
fn all78(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2869::lookup_all_message_authenticator(p).into_iter().map(|y| v(y)).collect())
}
fn add79(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2869::add_arap_challenge_response(p, x)
}
fn look79(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2869::lookup_arap_challenge_response(p).map(|y| Ok(v(y)))
}
fn all79(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2869::lookup_all_arap_challenge_response(p).into_iter().map(|y| v(y)).collect())
}
fn add80(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2869::add_acct_interim_interval(p, be4(x)); Ok(())
}
fn look80(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2869::lookup_acct_interim_interval(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all80(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2869::lookup_all_acct_interim_interval(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add81(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2869::add_nas_port_id(p, txt(x)); Ok(())
}
fn look81(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2869::lookup_nas_port_id(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all81(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2869::lookup_all_nas_port_id(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add82(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc2869::add_framed_pool(p, txt(x)); Ok(())
}
fn look82(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc2869::lookup_framed_pool(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all82(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc2869::lookup_all_framed_pool(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add83(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc3162::add_nas_ipv6_address(p, &ip6(x)); Ok(())
}
fn look83(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc3162::lookup_nas_ipv6_address(p).map(|r| r.map(|y| v(y.octets().to_vec())))
}
fn all83(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc3162::lookup_all_nas_ipv6_address(p)?.into_iter().map(|y| v(y.octets().to_vec())).collect())
}
fn add84(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc3162::add_framed_interface_id(p, x)
}
fn look84(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc3162::lookup_framed_interface_id(p).map(|y| Ok(v(y)))
}
fn all84(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc3162::lookup_all_framed_interface_id(p).into_iter().map(|y| v(y)).collect())
}
fn add85(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc3162::add_framed_ipv6_prefix(p, x)
}
fn look85(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc3162::lookup_framed_ipv6_prefix(p).map(|r| r.map(|y| v(y)))
}
fn all85(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc3162::lookup_all_framed_ipv6_prefix(p)?.into_iter().map(|y| v(y)).collect())
}
fn add86(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc3162::add_login_ipv6_host(p, &ip6(x)); Ok(())
}
fn look86(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc3162::lookup_login_ipv6_host(p).map(|r| r.map(|y| v(y.octets().to_vec())))
}
fn all86(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc3162::lookup_all_login_ipv6_host(p)?.into_iter().map(|y| v(y.octets().to_vec())).collect())
}
fn add87(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc3162::add_framed_ipv6_route(p, txt(x)); Ok(())
}
fn look87(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc3162::lookup_framed_ipv6_route(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all87(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc3162::lookup_all_framed_ipv6_route(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add88(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc3162::add_framed_ipv6_pool(p, txt(x)); Ok(())
}
fn look88(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc3162::lookup_framed_ipv6_pool(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all88(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc3162::lookup_all_framed_ipv6_pool(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add89(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc3576::add_error_cause(p, be4(x)); Ok(())
}
fn look89(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc3576::lookup_error_cause(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all89(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc3576::lookup_all_error_cause(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add90(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc4072::add_eap_key_name(p, x); Ok(())
}
fn look90(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc4072::lookup_eap_key_name(p).map(|y| Ok(v(y)))
}
fn all90(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc4072::lookup_all_eap_key_name(p).into_iter().map(|y| v(y)).collect())
}
fn add91(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc4372::add_chargeable_user_identity(p, x); Ok(())
}
fn look91(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc4372::lookup_chargeable_user_identity(p).map(|y| Ok(v(y)))
}
fn all91(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc4372::lookup_all_chargeable_user_identity(p).into_iter().map(|y| v(y)).collect())
}
fn add92(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc4675::add_egress_vlanid(p, be4(x)); Ok(())
}
fn look92(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc4675::lookup_egress_vlanid(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all92(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc4675::lookup_all_egress_vlanid(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add93(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc4675::add_ingress_filters(p, be4(x)); Ok(())
}
fn look93(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc4675::lookup_ingress_filters(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all93(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc4675::lookup_all_ingress_filters(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add94(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc4675::add_egress_vlan_name(p, txt(x)); Ok(())
}
fn look94(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc4675::lookup_egress_vlan_name(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all94(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc4675::lookup_all_egress_vlan_name(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add95(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc4675::add_user_priority_table(p, x); Ok(())
}
fn look95(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc4675::lookup_user_priority_table(p).map(|y| Ok(v(y)))
}
fn all95(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc4675::lookup_all_user_priority_table(p).into_iter().map(|y| v(y)).collect())
}
fn add96(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc4818::add_delegated_ipv6_prefix(p, x)
}
fn look96(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc4818::lookup_delegated_ipv6_prefix(p).map(|r| r.map(|y| v(y)))
}
fn all96(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc4818::lookup_all_delegated_ipv6_prefix(p)?.into_iter().map(|y| v(y)).collect())
}
fn add97(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc4849::add_nas_filter_rule(p, txt(x)); Ok(())
}
fn look97(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc4849::lookup_nas_filter_rule(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all97(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc4849::lookup_all_nas_filter_rule(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add98(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5090::add_digest_response(p, txt(x)); Ok(())
}
fn look98(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5090::lookup_digest_response(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all98(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5090::lookup_all_digest_response(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add99(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5090::add_digest_realm(p, txt(x)); Ok(())
}
fn look99(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5090::lookup_digest_realm(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all99(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5090::lookup_all_digest_realm(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add100(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5090::add_digest_nonce(p, txt(x)); Ok(())
}
fn look100(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5090::lookup_digest_nonce(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all100(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5090::lookup_all_digest_nonce(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add101(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5090::add_digest_response_auth(p, txt(x)); Ok(())
}
fn look101(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5090::lookup_digest_response_auth(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all101(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5090::lookup_all_digest_response_auth(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add102(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5090::add_digest_nextnonce(p, txt(x)); Ok(())
}
fn look102(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5090::lookup_digest_nextnonce(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all102(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5090::lookup_all_digest_nextnonce(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add103(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5090::add_digest_method(p, txt(x)); Ok(())
}
fn look103(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5090::lookup_digest_method(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all103(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5090::lookup_all_digest_method(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add104(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5090::add_digest_uri(p, txt(x)); Ok(())
}
fn look104(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5090::lookup_digest_uri(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all104(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5090::lookup_all_digest_uri(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add105(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5090::add_digest_qop(p, txt(x)); Ok(())
}
fn look105(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5090::lookup_digest_qop(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all105(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5090::lookup_all_digest_qop(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add106(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5090::add_digest_algorithm(p, txt(x)); Ok(())
}
fn look106(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5090::lookup_digest_algorithm(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all106(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5090::lookup_all_digest_algorithm(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add107(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5090::add_digest_entity_body_hash(p, txt(x)); Ok(())
}
fn look107(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5090::lookup_digest_entity_body_hash(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all107(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5090::lookup_all_digest_entity_body_hash(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add108(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5090::add_digest_c_nonce(p, txt(x)); Ok(())
}
fn look108(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5090::lookup_digest_c_nonce(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all108(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5090::lookup_all_digest_c_nonce(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add109(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5090::add_digest_nonce_count(p, txt(x)); Ok(())
}
fn look109(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5090::lookup_digest_nonce_count(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all109(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5090::lookup_all_digest_nonce_count(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add110(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5090::add_digest_username(p, txt(x)); Ok(())
}
fn look110(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5090::lookup_digest_username(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all110(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5090::lookup_all_digest_username(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add111(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5090::add_digest_opaque(p, txt(x)); Ok(())
}
fn look111(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5090::lookup_digest_opaque(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all111(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5090::lookup_all_digest_opaque(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add112(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5090::add_digest_auth_param(p, txt(x)); Ok(())
}
fn look112(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5090::lookup_digest_auth_param(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all112(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5090::lookup_all_digest_auth_param(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add113(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5090::add_digest_aka_auts(p, txt(x)); Ok(())
}
fn look113(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5090::lookup_digest_aka_auts(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all113(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5090::lookup_all_digest_aka_auts(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add114(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5090::add_digest_domain(p, txt(x)); Ok(())
}
fn look114(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5090::lookup_digest_domain(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all114(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5090::lookup_all_digest_domain(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add115(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5090::add_digest_stale(p, txt(x)); Ok(())
}
fn look115(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5090::lookup_digest_stale(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all115(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5090::lookup_all_digest_stale(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add116(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5090::add_digest_ha1(p, txt(x)); Ok(())
}
fn look116(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5090::lookup_digest_ha1(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all116(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5090::lookup_all_digest_ha1(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add117(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5090::add_sip_aor(p, txt(x)); Ok(())
}
fn look117(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5090::lookup_sip_aor(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all117(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5090::lookup_all_sip_aor(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add118(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5607::add_framed_management(p, be4(x)); Ok(())
}
fn look118(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5607::lookup_framed_management(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all118(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5607::lookup_all_framed_management(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add119(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5607::add_management_transport_protection(p, be4(x)); Ok(())
}
fn look119(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5607::lookup_management_transport_protection(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all119(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5607::lookup_all_management_transport_protection(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add120(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5607::add_management_policy_id(p, txt(x)); Ok(())
}
fn look120(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5607::lookup_management_policy_id(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all120(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5607::lookup_all_management_policy_id(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add121(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5607::add_management_privilege_level(p, be4(x)); Ok(())
}
fn look121(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5607::lookup_management_privilege_level(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all121(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5607::lookup_all_management_privilege_level(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add122(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5904::add_pkm_ss_cert(p, x); Ok(())
}
fn look122(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5904::lookup_pkm_ss_cert(p).map(|y| Ok(v(y)))
}
fn all122(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5904::lookup_pkm_ss_cert(p).into_iter().map(|y| v(y)).collect())
}
fn add123(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5904::add_pkm_ca_cert(p, x); Ok(())
}
fn look123(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5904::lookup_pkm_ca_cert(p).map(|y| Ok(v(y)))
}
fn all123(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5904::lookup_pkm_ca_cert(p).into_iter().map(|y| v(y)).collect())
}
fn add124(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5904::add_pkm_config_settings(p, x); Ok(())
}
fn look124(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5904::lookup_pkm_config_settings(p).map(|y| Ok(v(y)))
}
fn all124(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5904::lookup_all_pkm_config_settings(p).into_iter().map(|y| v(y)).collect())
}
fn add125(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5904::add_pkm_cryptosuite_list(p, x); Ok(())
}
fn look125(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5904::lookup_pkm_cryptosuite_list(p).map(|y| Ok(v(y)))
}
fn all125(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5904::lookup_all_pkm_cryptosuite_list(p).into_iter().map(|y| v(y)).collect())
}
fn add126(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5904::add_pkm_said(p, be2(x)); Ok(())
}
fn look126(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5904::lookup_pkm_said(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all126(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5904::lookup_all_pkm_said(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add127(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5904::add_pkm_sa_descriptor(p, x); Ok(())
}
fn look127(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5904::lookup_pkm_sa_descriptor(p).map(|y| Ok(v(y)))
}
fn all127(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5904::lookup_all_pkm_sa_descriptor(p).into_iter().map(|y| v(y)).collect())
}
fn add128(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc5904::add_pkm_auth_key(p, x); Ok(())
}
fn look128(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc5904::lookup_pkm_auth_key(p).map(|y| Ok(v(y)))
}
fn all128(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc5904::lookup_all_pkm_auth_key(p).into_iter().map(|y| v(y)).collect())
}
fn add129(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6519::add_ds_lite_tunnel_name(p, txt(x)); Ok(())
}
fn look129(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6519::lookup_ds_lite_tunnel_name(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all129(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6519::lookup_all_ds_lite_tunnel_name(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add130(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6572::add_mobile_node_identifier(p, x); Ok(())
}
fn look130(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6572::lookup_mobile_node_identifier(p).map(|y| Ok(v(y)))
}
fn all130(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6572::lookup_all_mobile_node_identifier(p).into_iter().map(|y| v(y)).collect())
}
fn add131(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6572::add_service_selection(p, txt(x)); Ok(())
}
fn look131(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6572::lookup_service_selection(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all131(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6572::lookup_all_service_selection(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add132(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6572::add_pmip6_home_lma_ipv6_address(p, &ip6(x)); Ok(())
}
fn look132(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6572::lookup_pmip6_home_lma_ipv6_address(p).map(|r| r.map(|y| v(y.octets().to_vec())))
}
fn all132(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6572::lookup_all_pmip6_home_lma_ipv6_address(p)?.into_iter().map(|y| v(y.octets().to_vec())).collect())
}
fn add133(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6572::add_pmip6_visited_lma_ipv6_address(p, &ip6(x)); Ok(())
}
fn look133(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6572::lookup_pmip6_visited_lma_ipv6_address(p).map(|r| r.map(|y| v(y.octets().to_vec())))
}
fn all133(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6572::lookup_all_pmip6_visited_lma_ipv6_address(p)?.into_iter().map(|y| v(y.octets().to_vec())).collect())
}
fn add134(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6572::add_pmip6_home_lma_ipv4_address(p, &ip4(x)); Ok(())
}
fn look134(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6572::lookup_pmip6_home_lma_ipv4_address(p).map(|r| r.map(|y| v(y.octets().to_vec())))
}
fn all134(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6572::lookup_all_pmip6_home_lma_ipv4_address(p)?.into_iter().map(|y| v(y.octets().to_vec())).collect())
}
fn add135(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6572::add_pmip6_visited_lma_ipv4_address(p, &ip4(x)); Ok(())
}
fn look135(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6572::lookup_pmip6_visited_lma_ipv4_address(p).map(|r| r.map(|y| v(y.octets().to_vec())))
}
fn all135(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6572::lookup_all_pmip6_visited_lma_ipv4_address(p)?.into_iter().map(|y| v(y.octets().to_vec())).collect())
}
fn add136(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6572::add_pmip6_home_hn_prefix(p, x)
}
fn look136(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6572::lookup_pmip6_home_hn_prefix(p).map(|r| r.map(|y| v(y)))
}
fn all136(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6572::lookup_all_pmip6_home_hn_prefix(p)?.into_iter().map(|y| v(y)).collect())
}
fn add137(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6572::add_pmip6_visited_hn_prefix(p, x)
}
fn look137(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6572::lookup_pmip6_visited_hn_prefix(p).map(|r| r.map(|y| v(y)))
}
fn all137(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6572::lookup_all_pmip6_visited_hn_prefix(p)?.into_iter().map(|y| v(y)).collect())
}
fn add138(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6572::add_pmip6_home_interface_id(p, x)
}
fn look138(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6572::lookup_pmip6_home_interface_id(p).map(|y| Ok(v(y)))
}
fn all138(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6572::lookup_all_pmip6_home_interface_id(p).into_iter().map(|y| v(y)).collect())
}
fn add139(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6572::add_pmip6_visited_interface_id(p, x)
}
fn look139(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6572::lookup_pmip6_visited_interface_id(p).map(|y| Ok(v(y)))
}
fn all139(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6572::lookup_all_pmip6_visited_interface_id(p).into_iter().map(|y| v(y)).collect())
}
fn add140(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6572::add_pmip6_home_ipv4_ho_a(p, x)
}
fn look140(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6572::lookup_pmip6_home_ipv4_ho_a(p).map(|r| r.map(|y| v(y)))
}
fn all140(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6572::lookup_all_pmip6_home_ipv4_ho_a(p)?.into_iter().map(|y| v(y)).collect())
}
fn add141(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6572::add_pmip6_visited_ipv4_ho_a(p, x)
}
fn look141(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6572::lookup_pmip6_visited_ipv4_ho_a(p).map(|r| r.map(|y| v(y)))
}
fn all141(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6572::lookup_all_pmip6_visited_ipv4_ho_a(p)?.into_iter().map(|y| v(y)).collect())
}
fn add142(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6572::add_pmip6_home_dhcp4_server_address(p, &ip4(x)); Ok(())
}
fn look142(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6572::lookup_pmip6_home_dhcp4_server_address(p).map(|r| r.map(|y| v(y.octets().to_vec())))
}
fn all142(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6572::lookup_all_pmip6_home_dhcp4_server_address(p)?.into_iter().map(|y| v(y.octets().to_vec())).collect())
}
fn add143(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6572::add_pmip6_visited_dhcp4_server_address(p, &ip4(x)); Ok(())
}
fn look143(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6572::lookup_pmip6_visited_dhcp4_server_address(p).map(|r| r.map(|y| v(y.octets().to_vec())))
}
fn all143(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6572::lookup_all_pmip6_visited_dhcp4_server_address(p)?.into_iter().map(|y| v(y.octets().to_vec())).collect())
}
fn add144(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6572::add_pmip6_home_dhcp6_server_address(p, &ip6(x)); Ok(())
}
fn look144(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6572::lookup_pmip6_home_dhcp6_server_address(p).map(|r| r.map(|y| v(y.octets().to_vec())))
}
fn all144(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6572::lookup_all_pmip6_home_dhcp6_server_address(p)?.into_iter().map(|y| v(y.octets().to_vec())).collect())
}
fn add145(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6572::add_pmip6_visited_dhcp6_server_address(p, &ip6(x)); Ok(())
}
fn look145(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6572::lookup_pmip6_visited_dhcp6_server_address(p).map(|r| r.map(|y| v(y.octets().to_vec())))
}
fn all145(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6572::lookup_all_pmip6_visited_dhcp6_server_address(p)?.into_iter().map(|y| v(y.octets().to_vec())).collect())
}
fn add146(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6572::add_pmip6_home_ipv4_gateway(p, &ip4(x)); Ok(())
}
fn look146(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6572::lookup_pmip6_home_ipv4_gateway(p).map(|r| r.map(|y| v(y.octets().to_vec())))
}
fn all146(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6572::lookup_all_pmip6_home_ipv4_gateway(p)?.into_iter().map(|y| v(y.octets().to_vec())).collect())
}
fn add147(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6572::add_pmip6_visited_ipv4_gateway(p, &ip4(x)); Ok(())
}
fn look147(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6572::lookup_pmip6_visited_ipv4_gateway(p).map(|r| r.map(|y| v(y.octets().to_vec())))
}
fn all147(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6572::lookup_all_pmip6_visited_ipv4_gateway(p)?.into_iter().map(|y| v(y.octets().to_vec())).collect())
}
fn add148(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6677::add_eap_lower_layer(p, be4(x)); Ok(())
}
fn look148(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6677::lookup_eap_lower_layer(p).map(|r| r.map(|y| v(y.to_be_bytes().to_vec())))
}
fn all148(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6677::lookup_all_eap_lower_layer(p)?.into_iter().map(|y| v(y.to_be_bytes().to_vec())).collect())
}
fn add149(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6911::add_framed_ipv6_address(p, &ip6(x)); Ok(())
}
fn look149(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6911::lookup_framed_ipv6_address(p).map(|r| r.map(|y| v(y.octets().to_vec())))
}
fn all149(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6911::lookup_all_framed_ipv6_address(p)?.into_iter().map(|y| v(y.octets().to_vec())).collect())
}
fn add150(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6911::add_dns_server_ipv6_address(p, &ip6(x)); Ok(())
}
fn look150(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6911::lookup_dns_server_ipv6_address(p).map(|r| r.map(|y| v(y.octets().to_vec())))
}
fn all150(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6911::lookup_all_dns_server_ipv6_address(p)?.into_iter().map(|y| v(y.octets().to_vec())).collect())
}
fn add151(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6911::add_route_ipv6_information(p, x)
}
fn look151(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6911::lookup_route_ipv6_information(p).map(|r| r.map(|y| v(y)))
}
fn all151(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6911::lookup_all_route_ipv6_information(p)?.into_iter().map(|y| v(y)).collect())
}
fn add152(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6911::add_delegated_ipv6_prefix_pool(p, txt(x)); Ok(())
}
fn look152(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6911::lookup_delegated_ipv6_prefix_pool(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all152(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6911::lookup_all_delegated_ipv6_prefix_pool(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add153(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc6911::add_stateful_ipv6_address_pool(p, txt(x)); Ok(())
}
fn look153(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc6911::lookup_stateful_ipv6_address_pool(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all153(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc6911::lookup_all_stateful_ipv6_address_pool(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add154(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc7055::add_gss_acceptor_service_name(p, txt(x)); Ok(())
}
fn look154(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc7055::lookup_gss_acceptor_service_name(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all154(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc7055::lookup_all_gss_acceptor_service_name(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add155(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc7055::add_gss_acceptor_host_name(p, txt(x)); Ok(())
}
fn look155(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc7055::lookup_gss_acceptor_host_name(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all155(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc7055::lookup_all_gss_acceptor_host_name(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add156(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc7055::add_gss_acceptor_service_specifics(p, txt(x)); Ok(())
}
fn look156(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc7055::lookup_gss_acceptor_service_specifics(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all156(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc7055::lookup_all_gss_acceptor_service_specifics(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add157(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc7055::add_gss_acceptor_realm_name(p, txt(x)); Ok(())
}
fn look157(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc7055::lookup_gss_acceptor_realm_name(p).map(|r| r.map(|y| v(y.into_bytes())))
}
fn all157(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc7055::lookup_all_gss_acceptor_realm_name(p)?.into_iter().map(|y| v(y.into_bytes())).collect())
}
fn add158(p: &mut Packet, x: &[u8], t: Option<&Tag>) -> Result<(), AVPError> {
    dictroot::rfc7155::add_originating_line_info(p, x)
}
fn look158(p: &Packet) -> Option<Result<Val, AVPError>> {
    dictroot::rfc7155::lookup_originating_line_info(p).map(|y| Ok(v(y)))
}
fn all158(p: &Packet) -> Result<Vec<Val>, AVPError> {
    Ok(dictroot::rfc7155::lookup_all_originating_line_info(p).into_iter().map(|y| v(y)).collect())
}
pub fn entries() -> &'static [Entry] {
    static E: &[Entry] = &[
        Entry { num: dictroot::rfc2865::USER_NAME_TYPE, add: add0, look: look0, all: all0, del: dictroot::rfc2865::delete_user_name },
        Entry { num: dictroot::rfc2865::USER_PASSWORD_TYPE, add: add1, look: look1, all: all1, del: dictroot::rfc2865::delete_user_password },
        Entry { num: dictroot::rfc2865::CHAP_PASSWORD_TYPE, add: add2, look: look2, all: all2, del: dictroot::rfc2865::delete_chap_password },
        Entry { num: dictroot::rfc2865::NAS_IP_ADDRESS_TYPE, add: add3, look: look3, all: all3, del: dictroot::rfc2865::delete_nas_ip_address },
        Entry { num: dictroot::rfc2865::NAS_PORT_TYPE, add: add4, look: look4, all: all4, del: dictroot::rfc2865::delete_nas_port },
        Entry { num: dictroot::rfc2865::SERVICE_TYPE_TYPE, add: add5, look: look5, all: all5, del: dictroot::rfc2865::delete_service_type },
        Entry { num: dictroot::rfc2865::FRAMED_PROTOCOL_TYPE, add: add6, look: look6, all: all6, del: dictroot::rfc2865::delete_framed_protocol },
        Entry { num: dictroot::rfc2865::FRAMED_IP_ADDRESS_TYPE, add: add7, look: look7, all: all7, del: dictroot::rfc2865::delete_framed_ip_address },
        Entry { num: dictroot::rfc2865::FRAMED_IP_NETMASK_TYPE, add: add8, look: look8, all: all8, del: dictroot::rfc2865::delete_framed_ip_netmask },
        Entry { num: dictroot::rfc2865::FRAMED_ROUTING_TYPE, add: add9, look: look9, all: all9, del: dictroot::rfc2865::delete_framed_routing },
        Entry { num: dictroot::rfc2865::FILTER_ID_TYPE, add: add10, look: look10, all: all10, del: dictroot::rfc2865::delete_filter_id },
        Entry { num: dictroot::rfc2865::FRAMED_MTU_TYPE, add: add11, look: look11, all: all11, del: dictroot::rfc2865::delete_framed_mtu },
        Entry { num: dictroot::rfc2865::FRAMED_COMPRESSION_TYPE, add: add12, look: look12, all: all12, del: dictroot::rfc2865::delete_framed_compression },
        Entry { num: dictroot::rfc2865::LOGIN_IP_HOST_TYPE, add: add13, look: look13, all: all13, del: dictroot::rfc2865::delete_login_ip_host },
        Entry { num: dictroot::rfc2865::LOGIN_SERVICE_TYPE, add: add14, look: look14, all: all14, del: dictroot::rfc2865::delete_login_service },
        Entry { num: dictroot::rfc2865::LOGIN_TCP_PORT_TYPE, add: add15, look: look15, all: all15, del: dictroot::rfc2865::delete_login_tcp_port },
        Entry { num: dictroot::rfc2865::REPLY_MESSAGE_TYPE, add: add16, look: look16, all: all16, del: dictroot::rfc2865::delete_reply_message },
        Entry { num: dictroot::rfc2865::CALLBACK_NUMBER_TYPE, add: add17, look: look17, all: all17, del: dictroot::rfc2865::delete_callback_number },
        Entry { num: dictroot::rfc2865::CALLBACK_ID_TYPE, add: add18, look: look18, all: all18, del: dictroot::rfc2865::delete_callback_id },
        Entry { num: dictroot::rfc2865::FRAMED_ROUTE_TYPE, add: add19, look: look19, all: all19, del: dictroot::rfc2865::delete_framed_route },
        Entry { num: dictroot::rfc2865::FRAMED_IPX_NETWORK_TYPE, add: add20, look: look20, all: all20, del: dictroot::rfc2865::delete_framed_ipx_network },
        Entry { num: dictroot::rfc2865::STATE_TYPE, add: add21, look: look21, all: all21, del: dictroot::rfc2865::delete_state },
        Entry { num: dictroot::rfc2865::CLASS_TYPE, add: add22, look: look22, all: all22, del: dictroot::rfc2865::delete_class },
        Entry { num: dictroot::rfc2865::VENDOR_SPECIFIC_TYPE, add: add23, look: look23, all: all23, del: dictroot::rfc2865::delete_vendor_specific },
        Entry { num: dictroot::rfc2865::SESSION_TIMEOUT_TYPE, add: add24, look: look24, all: all24, del: dictroot::rfc2865::delete_session_timeout },
        Entry { num: dictroot::rfc2865::IDLE_TIMEOUT_TYPE, add: add25, look: look25, all: all25, del: dictroot::rfc2865::delete_idle_timeout },
        Entry { num: dictroot::rfc2865::TERMINATION_ACTION_TYPE, add: add26, look: look26, all: all26, del: dictroot::rfc2865::delete_termination_action },
        Entry { num: dictroot::rfc2865::CALLED_STATION_ID_TYPE, add: add27, look: look27, all: all27, del: dictroot::rfc2865::delete_called_station_id },
        Entry { num: dictroot::rfc2865::CALLING_STATION_ID_TYPE, add: add28, look: look28, all: all28, del: dictroot::rfc2865::delete_calling_station_id },
        Entry { num: dictroot::rfc2865::NAS_IDENTIFIER_TYPE, add: add29, look: look29, all: all29, del: dictroot::rfc2865::delete_nas_identifier },
        Entry { num: dictroot::rfc2865::PROXY_STATE_TYPE, add: add30, look: look30, all: all30, del: dictroot::rfc2865::delete_proxy_state },
        Entry { num: dictroot::rfc2865::LOGIN_LAT_SERVICE_TYPE, add: add31, look: look31, all: all31, del: dictroot::rfc2865::delete_login_lat_service },
        Entry { num: dictroot::rfc2865::LOGIN_LAT_NODE_TYPE, add: add32, look: look32, all: all32, del: dictroot::rfc2865::delete_login_lat_node },
        Entry { num: dictroot::rfc2865::LOGIN_LAT_GROUP_TYPE, add: add33, look: look33, all: all33, del: dictroot::rfc2865::delete_login_lat_group },
        Entry { num: dictroot::rfc2865::FRAMED_APPLE_TALK_LINK_TYPE, add: add34, look: look34, all: all34, del: dictroot::rfc2865::delete_framed_apple_talk_link },
        Entry { num: dictroot::rfc2865::FRAMED_APPLE_TALK_NETWORK_TYPE, add: add35, look: look35, all: all35, del: dictroot::rfc2865::delete_framed_apple_talk_network },
        Entry { num: dictroot::rfc2865::FRAMED_APPLE_TALK_ZONE_TYPE, add: add36, look: look36, all: all36, del: dictroot::rfc2865::delete_framed_apple_talk_zone },
        Entry { num: dictroot::rfc2865::CHAP_CHALLENGE_TYPE, add: add37, look: look37, all: all37, del: dictroot::rfc2865::delete_chap_challenge },
        Entry { num: dictroot::rfc2865::NAS_PORT_TYPE_TYPE, add: add38, look: look38, all: all38, del: dictroot::rfc2865::delete_nas_port_type },
        Entry { num: dictroot::rfc2865::PORT_LIMIT_TYPE, add: add39, look: look39, all: all39, del: dictroot::rfc2865::delete_port_limit },
        Entry { num: dictroot::rfc2865::LOGIN_LAT_PORT_TYPE, add: add40, look: look40, all: all40, del: dictroot::rfc2865::delete_login_lat_port },
        Entry { num: dictroot::rfc2866::ACCT_STATUS_TYPE_TYPE, add: add41, look: look41, all: all41, del: dictroot::rfc2866::delete_acct_status_type },
        Entry { num: dictroot::rfc2866::ACCT_DELAY_TIME_TYPE, add: add42, look: look42, all: all42, del: dictroot::rfc2866::delete_acct_delay_time },
        Entry { num: dictroot::rfc2866::ACCT_INPUT_OCTETS_TYPE, add: add43, look: look43, all: all43, del: dictroot::rfc2866::delete_acct_input_octets },
        Entry { num: dictroot::rfc2866::ACCT_OUTPUT_OCTETS_TYPE, add: add44, look: look44, all: all44, del: dictroot::rfc2866::delete_acct_output_octets },
        Entry { num: dictroot::rfc2866::ACCT_SESSION_ID_TYPE, add: add45, look: look45, all: all45, del: dictroot::rfc2866::delete_acct_session_id },
        Entry { num: dictroot::rfc2866::ACCT_AUTHENTIC_TYPE, add: add46, look: look46, all: all46, del: dictroot::rfc2866::delete_acct_authentic },
        Entry { num: dictroot::rfc2866::ACCT_SESSION_TIME_TYPE, add: add47, look: look47, all: all47, del: dictroot::rfc2866::delete_acct_session_time },
        Entry { num: dictroot::rfc2866::ACCT_INPUT_PACKETS_TYPE, add: add48, look: look48, all: all48, del: dictroot::rfc2866::delete_acct_input_packets },
        Entry { num: dictroot::rfc2866::ACCT_OUTPUT_PACKETS_TYPE, add: add49, look: look49, all: all49, del: dictroot::rfc2866::delete_acct_output_packets },
        Entry { num: dictroot::rfc2866::ACCT_TERMINATE_CAUSE_TYPE, add: add50, look: look50, all: all50, del: dictroot::rfc2866::delete_acct_terminate_cause },
        Entry { num: dictroot::rfc2866::ACCT_MULTI_SESSION_ID_TYPE, add: add51, look: look51, all: all51, del: dictroot::rfc2866::delete_acct_multi_session_id },
        Entry { num: dictroot::rfc2866::ACCT_LINK_COUNT_TYPE, add: add52, look: look52, all: all52, del: dictroot::rfc2866::delete_acct_link_count },
        Entry { num: dictroot::rfc2867::ACCT_TUNNEL_CONNECTION_TYPE, add: add53, look: look53, all: all53, del: dictroot::rfc2867::delete_acct_tunnel_connection },
        Entry { num: dictroot::rfc2867::ACCT_TUNNEL_PACKETS_LOST_TYPE, add: add54, look: look54, all: all54, del: dictroot::rfc2867::delete_acct_tunnel_packets_lost },
        Entry { num: dictroot::rfc2868::TUNNEL_TYPE_TYPE, add: add55, look: look55, all: all55, del: dictroot::rfc2868::delete_tunnel_type },
        Entry { num: dictroot::rfc2868::TUNNEL_MEDIUM_TYPE_TYPE, add: add56, look: look56, all: all56, del: dictroot::rfc2868::delete_tunnel_medium_type },
        Entry { num: dictroot::rfc2868::TUNNEL_CLIENT_ENDPOINT_TYPE, add: add57, look: look57, all: all57, del: dictroot::rfc2868::delete_tunnel_client_endpoint },
        Entry { num: dictroot::rfc2868::TUNNEL_SERVER_ENDPOINT_TYPE, add: add58, look: look58, all: all58, del: dictroot::rfc2868::delete_tunnel_server_endpoint },
        Entry { num: dictroot::rfc2868::TUNNEL_PASSWORD_TYPE, add: add59, look: look59, all: all59, del: dictroot::rfc2868::delete_tunnel_password },
        Entry { num: dictroot::rfc2868::TUNNEL_PRIVATE_GROUP_ID_TYPE, add: add60, look: look60, all: all60, del: dictroot::rfc2868::delete_tunnel_private_group_id },
        Entry { num: dictroot::rfc2868::TUNNEL_ASSIGNMENT_ID_TYPE, add: add61, look: look61, all: all61, del: dictroot::rfc2868::delete_tunnel_assignment_id },
        Entry { num: dictroot::rfc2868::TUNNEL_PREFERENCE_TYPE, add: add62, look: look62, all: all62, del: dictroot::rfc2868::delete_tunnel_preference },
        Entry { num: dictroot::rfc2868::TUNNEL_CLIENT_AUTH_ID_TYPE, add: add63, look: look63, all: all63, del: dictroot::rfc2868::delete_tunnel_client_auth_id },
        Entry { num: dictroot::rfc2868::TUNNEL_SERVER_AUTH_ID_TYPE, add: add64, look: look64, all: all64, del: dictroot::rfc2868::delete_tunnel_server_auth_id },
        Entry { num: dictroot::rfc2869::ACCT_INPUT_GIGAWORDS_TYPE, add: add65, look: look65, all: all65, del: dictroot::rfc2869::delete_acct_input_gigawords },
        Entry { num: dictroot::rfc2869::ACCT_OUTPUT_GIGAWORDS_TYPE, add: add66, look: look66, all: all66, del: dictroot::rfc2869::delete_acct_output_gigawords },
        Entry { num: dictroot::rfc2869::EVENT_TIMESTAMP_TYPE, add: add67, look: look67, all: all67, del: dictroot::rfc2869::delete_event_timestamp },
        Entry { num: dictroot::rfc2869::ARAP_PASSWORD_TYPE, add: add68, look: look68, all: all68, del: dictroot::rfc2869::delete_arap_password },
        Entry { num: dictroot::rfc2869::ARAP_FEATURES_TYPE, add: add69, look: look69, all: all69, del: dictroot::rfc2869::delete_arap_features },
        Entry { num: dictroot::rfc2869::ARAP_ZONE_ACCESS_TYPE, add: add70, look: look70, all: all70, del: dictroot::rfc2869::delete_arap_zone_access },
        Entry { num: dictroot::rfc2869::ARAP_SECURITY_TYPE, add: add71, look: look71, all: all71, del: dictroot::rfc2869::delete_arap_security },
        Entry { num: dictroot::rfc2869::ARAP_SECURITY_DATA_TYPE, add: add72, look: look72, all: all72, del: dictroot::rfc2869::delete_arap_security_data },
        Entry { num: dictroot::rfc2869::PASSWORD_RETRY_TYPE, add: add73, look: look73, all: all73, del: dictroot::rfc2869::delete_password_retry },
        Entry { num: dictroot::rfc2869::PROMPT_TYPE, add: add74, look: look74, all: all74, del: dictroot::rfc2869::delete_prompt },
        Entry { num: dictroot::rfc2869::CONNECT_INFO_TYPE, add: add75, look: look75, all: all75, del: dictroot::rfc2869::delete_connect_info },
        Entry { num: dictroot::rfc2869::CONFIGURATION_TOKEN_TYPE, add: add76, look: look76, all: all76, del: dictroot::rfc2869::delete_configuration_token },
        Entry { num: dictroot::rfc2869::EAP_MESSAGE_TYPE, add: add77, look: look77, all: all77, del: dictroot::rfc2869::delete_eap_message },
        Entry { num: dictroot::rfc2869::MESSAGE_AUTHENTICATOR_TYPE, add: add78, look: look78, all: all78, del: dictroot::rfc2869::delete_message_authenticator },
        Entry { num: dictroot::rfc2869::ARAP_CHALLENGE_RESPONSE_TYPE, add: add79, look: look79, all: all79, del: dictroot::rfc2869::delete_arap_challenge_response },
        Entry { num: dictroot::rfc2869::ACCT_INTERIM_INTERVAL_TYPE, add: add80, look: look80, all: all80, del: dictroot::rfc2869::delete_acct_interim_interval },
        Entry { num: dictroot::rfc2869::NAS_PORT_ID_TYPE, add: add81, look: look81, all: all81, del: dictroot::rfc2869::delete_nas_port_id },
        Entry { num: dictroot::rfc2869::FRAMED_POOL_TYPE, add: add82, look: look82, all: all82, del: dictroot::rfc2869::delete_framed_pool },
        Entry { num: dictroot::rfc3162::NAS_IPV6_ADDRESS_TYPE, add: add83, look: look83, all: all83, del: dictroot::rfc3162::delete_nas_ipv6_address },
        Entry { num: dictroot::rfc3162::FRAMED_INTERFACE_ID_TYPE, add: add84, look: look84, all: all84, del: dictroot::rfc3162::delete_framed_interface_id },
        Entry { num: dictroot::rfc3162::FRAMED_IPV6_PREFIX_TYPE, add: add85, look: look85, all: all85, del: dictroot::rfc3162::delete_framed_ipv6_prefix },
        Entry { num: dictroot::rfc3162::LOGIN_IPV6_HOST_TYPE, add: add86, look: look86, all: all86, del: dictroot::rfc3162::delete_login_ipv6_host },
        Entry { num: dictroot::rfc3162::FRAMED_IPV6_ROUTE_TYPE, add: add87, look: look87, all: all87, del: dictroot::rfc3162::delete_framed_ipv6_route },
        Entry { num: dictroot::rfc3162::FRAMED_IPV6_POOL_TYPE, add: add88, look: look88, all: all88, del: dictroot::rfc3162::delete_framed_ipv6_pool },
        Entry { num: dictroot::rfc3576::ERROR_CAUSE_TYPE, add: add89, look: look89, all: all89, del: dictroot::rfc3576::delete_error_cause },
        Entry { num: dictroot::rfc4072::EAP_KEY_NAME_TYPE, add: add90, look: look90, all: all90, del: dictroot::rfc4072::delete_eap_key_name },
        Entry { num: dictroot::rfc4372::CHARGEABLE_USER_IDENTITY_TYPE, add: add91, look: look91, all: all91, del: dictroot::rfc4372::delete_chargeable_user_identity },
        Entry { num: dictroot::rfc4675::EGRESS_VLANID_TYPE, add: add92, look: look92, all: all92, del: dictroot::rfc4675::delete_egress_vlanid },
        Entry { num: dictroot::rfc4675::INGRESS_FILTERS_TYPE, add: add93, look: look93, all: all93, del: dictroot::rfc4675::delete_ingress_filters },
        Entry { num: dictroot::rfc4675::EGRESS_VLAN_NAME_TYPE, add: add94, look: look94, all: all94, del: dictroot::rfc4675::delete_egress_vlan_name },
        Entry { num: dictroot::rfc4675::USER_PRIORITY_TABLE_TYPE, add: add95, look: look95, all: all95, del: dictroot::rfc4675::delete_user_priority_table },
        Entry { num: dictroot::rfc4818::DELEGATED_IPV6_PREFIX_TYPE, add: add96, look: look96, all: all96, del: dictroot::rfc4818::delete_delegated_ipv6_prefix },
        Entry { num: dictroot::rfc4849::NAS_FILTER_RULE_TYPE, add: add97, look: look97, all: all97, del: dictroot::rfc4849::delete_nas_filter_rule },
        Entry { num: dictroot::rfc5090::DIGEST_RESPONSE_TYPE, add: add98, look: look98, all: all98, del: dictroot::rfc5090::delete_digest_response },
        Entry { num: dictroot::rfc5090::DIGEST_REALM_TYPE, add: add99, look: look99, all: all99, del: dictroot::rfc5090::delete_digest_realm },
        Entry { num: dictroot::rfc5090::DIGEST_NONCE_TYPE, add: add100, look: look100, all: all100, del: dictroot::rfc5090::delete_digest_nonce },
        Entry { num: dictroot::rfc5090::DIGEST_RESPONSE_AUTH_TYPE, add: add101, look: look101, all: all101, del: dictroot::rfc5090::delete_digest_response_auth },
        Entry { num: dictroot::rfc5090::DIGEST_NEXTNONCE_TYPE, add: add102, look: look102, all: all102, del: dictroot::rfc5090::delete_digest_nextnonce },
        Entry { num: dictroot::rfc5090::DIGEST_METHOD_TYPE, add: add103, look: look103, all: all103, del: dictroot::rfc5090::delete_digest_method },
        Entry { num: dictroot::rfc5090::DIGEST_URI_TYPE, add: add104, look: look104, all: all104, del: dictroot::rfc5090::delete_digest_uri },
        Entry { num: dictroot::rfc5090::DIGEST_QOP_TYPE, add: add105, look: look105, all: all105, del: dictroot::rfc5090::delete_digest_qop },
        Entry { num: dictroot::rfc5090::DIGEST_ALGORITHM_TYPE, add: add106, look: look106, all: all106, del: dictroot::rfc5090::delete_digest_algorithm },
        Entry { num: dictroot::rfc5090::DIGEST_ENTITY_BODY_HASH_TYPE, add: add107, look: look107, all: all107, del: dictroot::rfc5090::delete_digest_entity_body_hash },
        Entry { num: dictroot::rfc5090::DIGEST_C_NONCE_TYPE, add: add108, look: look108, all: all108, del: dictroot::rfc5090::delete_digest_c_nonce },
        Entry { num: dictroot::rfc5090::DIGEST_NONCE_COUNT_TYPE, add: add109, look: look109, all: all109, del: dictroot::rfc5090::delete_digest_nonce_count },
        Entry { num: dictroot::rfc5090::DIGEST_USERNAME_TYPE, add: add110, look: look110, all: all110, del: dictroot::rfc5090::delete_digest_username },
        Entry { num: dictroot::rfc5090::DIGEST_OPAQUE_TYPE, add: add111, look: look111, all: all111, del: dictroot::rfc5090::delete_digest_opaque },
        Entry { num: dictroot::rfc5090::DIGEST_AUTH_PARAM_TYPE, add: add112, look: look112, all: all112, del: dictroot::rfc5090::delete_digest_auth_param },
        Entry { num: dictroot::rfc5090::DIGEST_AKA_AUTS_TYPE, add: add113, look: look113, all: all113, del: dictroot::rfc5090::delete_digest_aka_auts },
        Entry { num: dictroot::rfc5090::DIGEST_DOMAIN_TYPE, add: add114, look: look114, all: all114, del: dictroot::rfc5090::delete_digest_domain },
        Entry { num: dictroot::rfc5090::DIGEST_STALE_TYPE, add: add115, look: look115, all: all115, del: dictroot::rfc5090::delete_digest_stale },
        Entry { num: dictroot::rfc5090::DIGEST_HA1_TYPE, add: add116, look: look116, all: all116, del: dictroot::rfc5090::delete_digest_ha1 },
        Entry { num: dictroot::rfc5090::SIP_AOR_TYPE, add: add117, look: look117, all: all117, del: dictroot::rfc5090::delete_sip_aor },
        Entry { num: dictroot::rfc5607::FRAMED_MANAGEMENT_TYPE, add: add118, look: look118, all: all118, del: dictroot::rfc5607::delete_framed_management },
        Entry { num: dictroot::rfc5607::MANAGEMENT_TRANSPORT_PROTECTION_TYPE, add: add119, look: look119, all: all119, del: dictroot::rfc5607::delete_management_transport_protection },
        Entry { num: dictroot::rfc5607::MANAGEMENT_POLICY_ID_TYPE, add: add120, look: look120, all: all120, del: dictroot::rfc5607::delete_management_policy_id },
        Entry { num: dictroot::rfc5607::MANAGEMENT_PRIVILEGE_LEVEL_TYPE, add: add121, look: look121, all: all121, del: dictroot::rfc5607::delete_management_privilege_level },
        Entry { num: dictroot::rfc5904::PKM_SS_CERT_TYPE, add: add122, look: look122, all: all122, del: dictroot::rfc5904::delete_pkm_ss_cert },
        Entry { num: dictroot::rfc5904::PKM_CA_CERT_TYPE, add: add123, look: look123, all: all123, del: dictroot::rfc5904::delete_pkm_ca_cert },
        Entry { num: dictroot::rfc5904::PKM_CONFIG_SETTINGS_TYPE, add: add124, look: look124, all: all124, del: dictroot::rfc5904::delete_pkm_config_settings },
        Entry { num: dictroot::rfc5904::PKM_CRYPTOSUITE_LIST_TYPE, add: add125, look: look125, all: all125, del: dictroot::rfc5904::delete_pkm_cryptosuite_list },
        Entry { num: dictroot::rfc5904::PKM_SAID_TYPE, add: add126, look: look126, all: all126, del: dictroot::rfc5904::delete_pkm_said },
        Entry { num: dictroot::rfc5904::PKM_SA_DESCRIPTOR_TYPE, add: add127, look: look127, all: all127, del: dictroot::rfc5904::delete_pkm_sa_descriptor },
        Entry { num: dictroot::rfc5904::PKM_AUTH_KEY_TYPE, add: add128, look: look128, all: all128, del: dictroot::rfc5904::delete_pkm_auth_key },
        Entry { num: dictroot::rfc6519::DS_LITE_TUNNEL_NAME_TYPE, add: add129, look: look129, all: all129, del: dictroot::rfc6519::delete_ds_lite_tunnel_name },
        Entry { num: dictroot::rfc6572::MOBILE_NODE_IDENTIFIER_TYPE, add: add130, look: look130, all: all130, del: dictroot::rfc6572::delete_mobile_node_identifier },
        Entry { num: dictroot::rfc6572::SERVICE_SELECTION_TYPE, add: add131, look: look131, all: all131, del: dictroot::rfc6572::delete_service_selection },
        Entry { num: dictroot::rfc6572::PMIP6_HOME_LMA_IPV6_ADDRESS_TYPE, add: add132, look: look132, all: all132, del: dictroot::rfc6572::delete_pmip6_home_lma_ipv6_address },
        Entry { num: dictroot::rfc6572::PMIP6_VISITED_LMA_IPV6_ADDRESS_TYPE, add: add133, look: look133, all: all133, del: dictroot::rfc6572::delete_pmip6_visited_lma_ipv6_address },
        Entry { num: dictroot::rfc6572::PMIP6_HOME_LMA_IPV4_ADDRESS_TYPE, add: add134, look: look134, all: all134, del: dictroot::rfc6572::delete_pmip6_home_lma_ipv4_address },
        Entry { num: dictroot::rfc6572::PMIP6_VISITED_LMA_IPV4_ADDRESS_TYPE, add: add135, look: look135, all: all135, del: dictroot::rfc6572::delete_pmip6_visited_lma_ipv4_address },
        Entry { num: dictroot::rfc6572::PMIP6_HOME_HN_PREFIX_TYPE, add: add136, look: look136, all: all136, del: dictroot::rfc6572::delete_pmip6_home_hn_prefix },
        Entry { num: dictroot::rfc6572::PMIP6_VISITED_HN_PREFIX_TYPE, add: add137, look: look137, all: all137, del: dictroot::rfc6572::delete_pmip6_visited_hn_prefix },
        Entry { num: dictroot::rfc6572::PMIP6_HOME_INTERFACE_ID_TYPE, add: add138, look: look138, all: all138, del: dictroot::rfc6572::delete_pmip6_home_interface_id },
        Entry { num: dictroot::rfc6572::PMIP6_VISITED_INTERFACE_ID_TYPE, add: add139, look: look139, all: all139, del: dictroot::rfc6572::delete_pmip6_visited_interface_id },
        Entry { num: dictroot::rfc6572::PMIP6_HOME_IPV4_HO_A_TYPE, add: add140, look: look140, all: all140, del: dictroot::rfc6572::delete_pmip6_home_ipv4_ho_a },
        Entry { num: dictroot::rfc6572::PMIP6_VISITED_IPV4_HO_A_TYPE, add: add141, look: look141, all: all141, del: dictroot::rfc6572::delete_pmip6_visited_ipv4_ho_a },
        Entry { num: dictroot::rfc6572::PMIP6_HOME_DHCP4_SERVER_ADDRESS_TYPE, add: add142, look: look142, all: all142, del: dictroot::rfc6572::delete_pmip6_home_dhcp4_server_address },
        Entry { num: dictroot::rfc6572::PMIP6_VISITED_DHCP4_SERVER_ADDRESS_TYPE, add: add143, look: look143, all: all143, del: dictroot::rfc6572::delete_pmip6_visited_dhcp4_server_address },
        Entry { num: dictroot::rfc6572::PMIP6_HOME_DHCP6_SERVER_ADDRESS_TYPE, add: add144, look: look144, all: all144, del: dictroot::rfc6572::delete_pmip6_home_dhcp6_server_address },
        Entry { num: dictroot::rfc6572::PMIP6_VISITED_DHCP6_SERVER_ADDRESS_TYPE, add: add145, look: look145, all: all145, del: dictroot::rfc6572::delete_pmip6_visited_dhcp6_server_address },
        Entry { num: dictroot::rfc6572::PMIP6_HOME_IPV4_GATEWAY_TYPE, add: add146, look: look146, all: all146, del: dictroot::rfc6572::delete_pmip6_home_ipv4_gateway },
        Entry { num: dictroot::rfc6572::PMIP6_VISITED_IPV4_GATEWAY_TYPE, add: add147, look: look147, all: all147, del: dictroot::rfc6572::delete_pmip6_visited_ipv4_gateway },
        Entry { num: dictroot::rfc6677::EAP_LOWER_LAYER_TYPE, add: add148, look: look148, all: all148, del: dictroot::rfc6677::delete_eap_lower_layer },
        Entry { num: dictroot::rfc6911::FRAMED_IPV6_ADDRESS_TYPE, add: add149, look: look149, all: all149, del: dictroot::rfc6911::delete_framed_ipv6_address },
        Entry { num: dictroot::rfc6911::DNS_SERVER_IPV6_ADDRESS_TYPE, add: add150, look: look150, all: all150, del: dictroot::rfc6911::delete_dns_server_ipv6_address },
        Entry { num: dictroot::rfc6911::ROUTE_IPV6_INFORMATION_TYPE, add: add151, look: look151, all: all151, del: dictroot::rfc6911::delete_route_ipv6_information },
        Entry { num: dictroot::rfc6911::DELEGATED_IPV6_PREFIX_POOL_TYPE, add: add152, look: look152, all: all152, del: dictroot::rfc6911::delete_delegated_ipv6_prefix_pool },
        Entry { num: dictroot::rfc6911::STATEFUL_IPV6_ADDRESS_POOL_TYPE, add: add153, look: look153, all: all153, del: dictroot::rfc6911::delete_stateful_ipv6_address_pool },
        Entry { num: dictroot::rfc7055::GSS_ACCEPTOR_SERVICE_NAME_TYPE, add: add154, look: look154, all: all154, del: dictroot::rfc7055::delete_gss_acceptor_service_name },
        Entry { num: dictroot::rfc7055::GSS_ACCEPTOR_HOST_NAME_TYPE, add: add155, look: look155, all: all155, del: dictroot::rfc7055::delete_gss_acceptor_host_name },
        Entry { num: dictroot::rfc7055::GSS_ACCEPTOR_SERVICE_SPECIFICS_TYPE, add: add156, look: look156, all: all156, del: dictroot::rfc7055::delete_gss_acceptor_service_specifics },
        Entry { num: dictroot::rfc7055::GSS_ACCEPTOR_REALM_NAME_TYPE, add: add157, look: look157, all: all157, del: dictroot::rfc7055::delete_gss_acceptor_realm_name },
        Entry { num: dictroot::rfc7155::ORIGINATING_LINE_INFO_TYPE, add: add158, look: look158, all: all158, del: dictroot::rfc7155::delete_originating_line_info },
    ];
    E
}
pub fn constants() -> &'static [u32] {
    static C: &[u32] = &[
        dictroot::rfc2865::SERVICE_TYPE_LOGIN_USER as u32,
        dictroot::rfc2865::SERVICE_TYPE_FRAMED_USER as u32,
        dictroot::rfc2865::SERVICE_TYPE_CALLBACK_LOGIN_USER as u32,
        dictroot::rfc2865::SERVICE_TYPE_CALLBACK_FRAMED_USER as u32,
        dictroot::rfc2865::SERVICE_TYPE_OUTBOUND_USER as u32,
        dictroot::rfc2865::SERVICE_TYPE_ADMINISTRATIVE_USER as u32,
        dictroot::rfc2865::SERVICE_TYPE_NAS_PROMPT_USER as u32,
        dictroot::rfc2865::SERVICE_TYPE_AUTHENTICATE_ONLY as u32,
        dictroot::rfc2865::SERVICE_TYPE_CALLBACK_NAS_PROMPT as u32,
        dictroot::rfc2865::SERVICE_TYPE_CALL_CHECK as u32,
        dictroot::rfc2865::SERVICE_TYPE_CALLBACK_ADMINISTRATIVE as u32,
        dictroot::rfc2865::FRAMED_PROTOCOL_PPP as u32,
        dictroot::rfc2865::FRAMED_PROTOCOL_SLIP as u32,
        dictroot::rfc2865::FRAMED_PROTOCOL_ARAP as u32,
        dictroot::rfc2865::FRAMED_PROTOCOL_GANDALF_SLML as u32,
        dictroot::rfc2865::FRAMED_PROTOCOL_XYLOGICS_IPX_SLIP as u32,
        dictroot::rfc2865::FRAMED_PROTOCOL_X_75_SYNCHRONOUS as u32,
        dictroot::rfc2865::FRAMED_ROUTING_NONE as u32,
        dictroot::rfc2865::FRAMED_ROUTING_BROADCAST as u32,
        dictroot::rfc2865::FRAMED_ROUTING_LISTEN as u32,
        dictroot::rfc2865::FRAMED_ROUTING_BROADCAST_LISTEN as u32,
        dictroot::rfc2865::FRAMED_COMPRESSION_NONE as u32,
        dictroot::rfc2865::FRAMED_COMPRESSION_VAN_JACOBSON_TCP_IP as u32,
        dictroot::rfc2865::FRAMED_COMPRESSION_IPX_HEADER_COMPRESSION as u32,
        dictroot::rfc2865::FRAMED_COMPRESSION_STAC_LZS as u32,
        dictroot::rfc2865::LOGIN_SERVICE_TELNET as u32,
        dictroot::rfc2865::LOGIN_SERVICE_RLOGIN as u32,
        dictroot::rfc2865::LOGIN_SERVICE_TCP_CLEAR as u32,
        dictroot::rfc2865::LOGIN_SERVICE_PORT_MASTER as u32,
        dictroot::rfc2865::LOGIN_SERVICE_LAT as u32,
        dictroot::rfc2865::LOGIN_SERVICE_X25_PAD as u32,
        dictroot::rfc2865::LOGIN_SERVICE_X25_T3POS as u32,
        dictroot::rfc2865::LOGIN_SERVICE_TCP_CLEAR_QUIET as u32,
        dictroot::rfc2865::LOGIN_TCP_PORT_TELNET as u32,
        dictroot::rfc2865::LOGIN_TCP_PORT_RLOGIN as u32,
        dictroot::rfc2865::LOGIN_TCP_PORT_RSH as u32,
        dictroot::rfc2865::TERMINATION_ACTION_DEFAULT as u32,
        dictroot::rfc2865::TERMINATION_ACTION_RADIUS_REQUEST as u32,
        dictroot::rfc2865::NAS_PORT_TYPE_ASYNC as u32,
        dictroot::rfc2865::NAS_PORT_TYPE_SYNC as u32,
        dictroot::rfc2865::NAS_PORT_TYPE_ISDN as u32,
        dictroot::rfc2865::NAS_PORT_TYPE_ISDN_V120 as u32,
        dictroot::rfc2865::NAS_PORT_TYPE_ISDN_V110 as u32,
        dictroot::rfc2865::NAS_PORT_TYPE_VIRTUAL as u32,
        dictroot::rfc2865::NAS_PORT_TYPE_PIAFS as u32,
        dictroot::rfc2865::NAS_PORT_TYPE_HDLC_CLEAR_CHANNEL as u32,
        dictroot::rfc2865::NAS_PORT_TYPE_X_25 as u32,
        dictroot::rfc2865::NAS_PORT_TYPE_X_75 as u32,
        dictroot::rfc2865::NAS_PORT_TYPE_G_3_FAX as u32,
        dictroot::rfc2865::NAS_PORT_TYPE_SDSL as u32,
        dictroot::rfc2865::NAS_PORT_TYPE_ADSL_CAP as u32,
        dictroot::rfc2865::NAS_PORT_TYPE_ADSL_DMT as u32,
        dictroot::rfc2865::NAS_PORT_TYPE_IDSL as u32,
        dictroot::rfc2865::NAS_PORT_TYPE_ETHERNET as u32,
        dictroot::rfc2865::NAS_PORT_TYPE_X_DSL as u32,
        dictroot::rfc2865::NAS_PORT_TYPE_CABLE as u32,
        dictroot::rfc2865::NAS_PORT_TYPE_WIRELESS_OTHER as u32,
        dictroot::rfc2865::NAS_PORT_TYPE_WIRELESS_802_11 as u32,
        dictroot::rfc2866::ACCT_STATUS_TYPE_START as u32,
        dictroot::rfc2866::ACCT_STATUS_TYPE_STOP as u32,
        dictroot::rfc2866::ACCT_STATUS_TYPE_ALIVE as u32,
        dictroot::rfc2866::ACCT_STATUS_TYPE_INTERIM_UPDATE as u32,
        dictroot::rfc2866::ACCT_STATUS_TYPE_ACCOUNTING_ON as u32,
        dictroot::rfc2866::ACCT_STATUS_TYPE_ACCOUNTING_OFF as u32,
        dictroot::rfc2866::ACCT_STATUS_TYPE_FAILED as u32,
        dictroot::rfc2866::ACCT_AUTHENTIC_RADIUS as u32,
        dictroot::rfc2866::ACCT_AUTHENTIC_LOCAL as u32,
        dictroot::rfc2866::ACCT_AUTHENTIC_REMOTE as u32,
        dictroot::rfc2866::ACCT_AUTHENTIC_DIAMETER as u32,
        dictroot::rfc2866::ACCT_TERMINATE_CAUSE_USER_REQUEST as u32,
        dictroot::rfc2866::ACCT_TERMINATE_CAUSE_LOST_CARRIER as u32,
        dictroot::rfc2866::ACCT_TERMINATE_CAUSE_LOST_SERVICE as u32,
        dictroot::rfc2866::ACCT_TERMINATE_CAUSE_IDLE_TIMEOUT as u32,
        dictroot::rfc2866::ACCT_TERMINATE_CAUSE_SESSION_TIMEOUT as u32,
        dictroot::rfc2866::ACCT_TERMINATE_CAUSE_ADMIN_RESET as u32,
        dictroot::rfc2866::ACCT_TERMINATE_CAUSE_ADMIN_REBOOT as u32,
        dictroot::rfc2866::ACCT_TERMINATE_CAUSE_PORT_ERROR as u32,
        dictroot::rfc2866::ACCT_TERMINATE_CAUSE_NAS_ERROR as u32,
        dictroot::rfc2866::ACCT_TERMINATE_CAUSE_NAS_REQUEST as u32,
        dictroot::rfc2866::ACCT_TERMINATE_CAUSE_NAS_REBOOT as u32,
        dictroot::rfc2866::ACCT_TERMINATE_CAUSE_PORT_UNNEEDED as u32,
        dictroot::rfc2866::ACCT_TERMINATE_CAUSE_PORT_PREEMPTED as u32,
        dictroot::rfc2866::ACCT_TERMINATE_CAUSE_PORT_SUSPENDED as u32,
        dictroot::rfc2866::ACCT_TERMINATE_CAUSE_SERVICE_UNAVAILABLE as u32,
        dictroot::rfc2866::ACCT_TERMINATE_CAUSE_CALLBACK as u32,
        dictroot::rfc2866::ACCT_TERMINATE_CAUSE_USER_ERROR as u32,
        dictroot::rfc2866::ACCT_TERMINATE_CAUSE_HOST_REQUEST as u32,
        dictroot::rfc2867::ACCT_STATUS_TYPE_TUNNEL_START as u32,
        dictroot::rfc2867::ACCT_STATUS_TYPE_TUNNEL_STOP as u32,
        dictroot::rfc2867::ACCT_STATUS_TYPE_TUNNEL_REJECT as u32,
        dictroot::rfc2867::ACCT_STATUS_TYPE_TUNNEL_LINK_START as u32,
        dictroot::rfc2867::ACCT_STATUS_TYPE_TUNNEL_LINK_STOP as u32,
        dictroot::rfc2867::ACCT_STATUS_TYPE_TUNNEL_LINK_REJECT as u32,
        dictroot::rfc2868::TUNNEL_TYPE_PPTP as u32,
        dictroot::rfc2868::TUNNEL_TYPE_L2F as u32,
        dictroot::rfc2868::TUNNEL_TYPE_L2TP as u32,
        dictroot::rfc2868::TUNNEL_TYPE_ATMP as u32,
        dictroot::rfc2868::TUNNEL_TYPE_VTP as u32,
        dictroot::rfc2868::TUNNEL_TYPE_AH as u32,
        dictroot::rfc2868::TUNNEL_TYPE_IP as u32,
        dictroot::rfc2868::TUNNEL_TYPE_MIN_IP as u32,
        dictroot::rfc2868::TUNNEL_TYPE_ESP as u32,
        dictroot::rfc2868::TUNNEL_TYPE_GRE as u32,
        dictroot::rfc2868::TUNNEL_TYPE_DVS as u32,
        dictroot::rfc2868::TUNNEL_TYPE_IP_IN_IP as u32,
        dictroot::rfc2868::TUNNEL_MEDIUM_TYPE_IP as u32,
        dictroot::rfc2868::TUNNEL_MEDIUM_TYPE_I_PV_4 as u32,
        dictroot::rfc2868::TUNNEL_MEDIUM_TYPE_I_PV_6 as u32,
        dictroot::rfc2868::TUNNEL_MEDIUM_TYPE_NSAP as u32,
        dictroot::rfc2868::TUNNEL_MEDIUM_TYPE_HDLC as u32,
        dictroot::rfc2868::TUNNEL_MEDIUM_TYPE_BBN_1822 as u32,
        dictroot::rfc2868::TUNNEL_MEDIUM_TYPE_IEEE_802 as u32,
        dictroot::rfc2868::TUNNEL_MEDIUM_TYPE_E_163 as u32,
        dictroot::rfc2868::TUNNEL_MEDIUM_TYPE_E_164 as u32,
        dictroot::rfc2868::TUNNEL_MEDIUM_TYPE_F_69 as u32,
        dictroot::rfc2868::TUNNEL_MEDIUM_TYPE_X_121 as u32,
        dictroot::rfc2868::TUNNEL_MEDIUM_TYPE_IPX as u32,
        dictroot::rfc2868::TUNNEL_MEDIUM_TYPE_APPLETALK as u32,
        dictroot::rfc2868::TUNNEL_MEDIUM_TYPE_DEC_NET_IV as u32,
        dictroot::rfc2868::TUNNEL_MEDIUM_TYPE_BANYAN_VINES as u32,
        dictroot::rfc2868::TUNNEL_MEDIUM_TYPE_E_164_NSAP as u32,
        dictroot::rfc2869::ARAP_ZONE_ACCESS_DEFAULT_ZONE as u32,
        dictroot::rfc2869::ARAP_ZONE_ACCESS_ZONE_FILTER_INCLUSIVE as u32,
        dictroot::rfc2869::ARAP_ZONE_ACCESS_ZONE_FILTER_EXCLUSIVE as u32,
        dictroot::rfc2869::PROMPT_NO_ECHO as u32,
        dictroot::rfc2869::PROMPT_ECHO as u32,
        dictroot::rfc3576::SERVICE_TYPE_AUTHORIZE_ONLY as u32,
        dictroot::rfc3576::ERROR_CAUSE_RESIDUAL_CONTEXT_REMOVED as u32,
        dictroot::rfc3576::ERROR_CAUSE_INVALID_EAP_PACKET as u32,
        dictroot::rfc3576::ERROR_CAUSE_UNSUPPORTED_ATTRIBUTE as u32,
        dictroot::rfc3576::ERROR_CAUSE_MISSING_ATTRIBUTE as u32,
        dictroot::rfc3576::ERROR_CAUSE_NAS_IDENTIFICATION_MISMATCH as u32,
        dictroot::rfc3576::ERROR_CAUSE_INVALID_REQUEST as u32,
        dictroot::rfc3576::ERROR_CAUSE_UNSUPPORTED_SERVICE as u32,
        dictroot::rfc3576::ERROR_CAUSE_UNSUPPORTED_EXTENSION as u32,
        dictroot::rfc3576::ERROR_CAUSE_ADMINISTRATIVELY_PROHIBITED as u32,
        dictroot::rfc3576::ERROR_CAUSE_PROXY_REQUEST_NOT_ROUTABLE as u32,
        dictroot::rfc3576::ERROR_CAUSE_SESSION_CONTEXT_NOT_FOUND as u32,
        dictroot::rfc3576::ERROR_CAUSE_SESSION_CONTEXT_NOT_REMOVABLE as u32,
        dictroot::rfc3576::ERROR_CAUSE_PROXY_PROCESSING_ERROR as u32,
        dictroot::rfc3576::ERROR_CAUSE_RESOURCES_UNAVAILABLE as u32,
        dictroot::rfc3576::ERROR_CAUSE_REQUEST_INITIATED as u32,
        dictroot::rfc3580::ACCT_TERMINATE_CAUSE_SUPPLICANT_RESTART as u32,
        dictroot::rfc3580::ACCT_TERMINATE_CAUSE_REAUTHENTICATION_FAILURE as u32,
        dictroot::rfc3580::ACCT_TERMINATE_CAUSE_PORT_REINIT as u32,
        dictroot::rfc3580::ACCT_TERMINATE_CAUSE_PORT_DISABLED as u32,
        dictroot::rfc3580::NAS_PORT_TYPE_TOKEN_RING as u32,
        dictroot::rfc3580::NAS_PORT_TYPE_FDDI as u32,
        dictroot::rfc3580::TUNNEL_TYPE_VLAN as u32,
        dictroot::rfc4603::NAS_PORT_TYPE_PP_PO_A as u32,
        dictroot::rfc4603::NAS_PORT_TYPE_PP_PO_EO_A as u32,
        dictroot::rfc4603::NAS_PORT_TYPE_PP_PO_EO_E as u32,
        dictroot::rfc4603::NAS_PORT_TYPE_PP_PO_EO_VLAN as u32,
        dictroot::rfc4603::NAS_PORT_TYPE_PP_PO_EO_QIN_Q as u32,
        dictroot::rfc4675::INGRESS_FILTERS_ENABLED as u32,
        dictroot::rfc4675::INGRESS_FILTERS_DISABLED as u32,
        dictroot::rfc5176::ERROR_CAUSE_INVALID_ATTRIBUTE_VALUE as u32,
        dictroot::rfc5176::ERROR_CAUSE_MULTIPLE_SESSION_SELECTION_UNSUPPORTED as u32,
        dictroot::rfc5607::SERVICE_TYPE_FRAMED_MANAGEMENT as u32,
        dictroot::rfc5607::FRAMED_MANAGEMENT_SNMP as u32,
        dictroot::rfc5607::FRAMED_MANAGEMENT_WEB_BASED as u32,
        dictroot::rfc5607::FRAMED_MANAGEMENT_NETCONF as u32,
        dictroot::rfc5607::FRAMED_MANAGEMENT_FTP as u32,
        dictroot::rfc5607::FRAMED_MANAGEMENT_TFTP as u32,
        dictroot::rfc5607::FRAMED_MANAGEMENT_SFTP as u32,
        dictroot::rfc5607::FRAMED_MANAGEMENT_RCP as u32,
        dictroot::rfc5607::FRAMED_MANAGEMENT_SCP as u32,
        dictroot::rfc5607::MANAGEMENT_TRANSPORT_PROTECTION_NO_PROTECTION as u32,
        dictroot::rfc5607::MANAGEMENT_TRANSPORT_PROTECTION_INTEGRITY_PROTECTION as u32,
        dictroot::rfc5607::MANAGEMENT_TRANSPORT_PROTECTION_INTEGRITY_CONFIDENTIALITY_PROTECTION as u32,
        dictroot::rfc6677::EAP_LOWER_LAYER_WIRED_IEEE_802_1X as u32,
        dictroot::rfc6677::EAP_LOWER_LAYER_IEEE_802_1X_NO_PREAUTH as u32,
        dictroot::rfc6677::EAP_LOWER_LAYER_IEEE_802_1X_PREAUTH as u32,
        dictroot::rfc6677::EAP_LOWER_LAYER_IEEE_802_1_6E as u32,
        dictroot::rfc6677::EAP_LOWER_LAYER_IK_EV_2 as u32,
        dictroot::rfc6677::EAP_LOWER_LAYER_PPP as u32,
        dictroot::rfc6677::EAP_LOWER_LAYER_PANA_NO_PREAUTH as u32,
        dictroot::rfc6677::EAP_LOWER_LAYER_GSS_API as u32,
        dictroot::rfc6677::EAP_LOWER_LAYER_PANA_PREAUTH as u32,
    ];
    C
}
