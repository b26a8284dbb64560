//! Table of the message types and typed access to the library under test.
use crate::dict::Dict;
use crate::gen_::*;
use crate::rng::Rng;
use crate::schema::*;
use mx_message::error::ValidationError;
use mx_message::mx_envelope::{Document, MxMessage};
use mx_message::parse_result::{ErrorCollector, ParserConfig};
use mx_message::validation::Validate;
use serde_json::{Value, json};

/// The specification of the registered message types (from the ISO 20022 message set)
pub struct MT {
    pub short: &'static str,
    pub full: &'static str,
    pub tag: &'static str,
    pub rust: &'static str,
    pub module: &'static str,
    pub variant: &'static str,
}
macro_rules! mts { ($(($s:literal,$f:literal,$t:literal,$r:literal,$m:literal,$v:ident)),* $(,)?) => {
    pub const MTS: &[MT] = &[$(MT{short:$s,full:$f,tag:$t,rust:$r,module:$m,variant:stringify!($v)}),*];
    pub fn variant_name(d: &Document) -> &'static str { match d { $(Document::$v(_) => stringify!($v)),* } }
    pub fn validate_doc(d: &Document, path: &str, cfg: &ParserConfig, c: &mut ErrorCollector) { match d { $(Document::$v(x) => x.validate(path, cfg, c)),* } }
} }
mts! {
    ("pacs.008","pacs.008.001.08","FIToFICstmrCdtTrf","FIToFICustomerCreditTransferV08","pacs_008_001_08",Pacs008),
    ("pacs.002","pacs.002.001.10","FIToFIPmtStsRpt","FIToFIPaymentStatusReportV10","pacs_002_001_10",Pacs002),
    ("pacs.003","pacs.003.001.08","FIToFICstmrDrctDbt","FIToFICustomerDirectDebitV08","pacs_003_001_08",Pacs003),
    ("pacs.004","pacs.004.001.09","PmtRtr","PaymentReturnV09","pacs_004_001_09",Pacs004),
    ("pacs.009","pacs.009.001.08","FICdtTrf","FinancialInstitutionCreditTransferV08","pacs_009_001_08",Pacs009),
    ("pacs.010","pacs.010.001.03","FIDrctDbt","FinancialInstitutionDirectDebitV03","pacs_010_001_03",Pacs010),
    ("pain.001","pain.001.001.09","CstmrCdtTrfInitn","CustomerCreditTransferInitiationV09","pain_001_001_09",Pain001),
    ("pain.002","pain.002.001.10","CstmrPmtStsRpt","CustomerPaymentStatusReportV10","pain_002_001_10",Pain002),
    ("pain.008","pain.008.001.08","CstmrDrctDbtInitn","CustomerDirectDebitInitiationV08","pain_008_001_08",Pain008),
    ("camt.025","camt.025.001.08","Rcpt","ReceiptV08","camt_025_001_08",Camt025),
    ("camt.029","camt.029.001.09","RsltnOfInvstgtn","ResolutionOfInvestigationV09","camt_029_001_09",Camt029),
    ("camt.052","camt.052.001.08","BkToCstmrAcctRpt","BankToCustomerAccountReportV08","camt_052_001_08",Camt052),
    ("camt.053","camt.053.001.08","BkToCstmrStmt","BankToCustomerStatementV08","camt_053_001_08",Camt053),
    ("camt.054","camt.054.001.08","BkToCstmrDbtCdtNtfctn","BankToCustomerDebitCreditNotificationV08","camt_054_001_08",Camt054),
    ("camt.055","camt.055.001.08","CstmrPmtCxlReq","CustomerPaymentCancellationRequestV08","camt_055_001_08",Camt055),
    ("camt.056","camt.056.001.08","FIToFIPmtCxlReq","FIToFIPaymentCancellationRequestV08","camt_056_001_08",Camt056),
    ("camt.058","camt.058.001.08","NtfctnToRcvCxlAdvc","NotificationToReceiveCancellationAdviceV08","camt_058_001_08",Camt058),
    ("camt.057","camt.057.001.06","NtfctnToRcv","NotificationToReceiveV06","camt_057_001_06",Camt057),
    ("camt.060","camt.060.001.05","AcctRptgReq","AccountReportingRequestV05","camt_060_001_05",Camt060),
    ("camt.105","camt.105.001.02","ChrgsPmtNtfctn","ChargesPaymentNotificationV02","camt_105_001_02",Camt105),
    ("camt.106","camt.106.001.02","ChrgsPmtReq","ChargesPaymentRequestV02","camt_106_001_02",Camt106),
    ("camt.107","camt.107.001.01","ChqPresntmntNtfctn","ChequePresentmentNotificationV01","camt_107_001_01",Camt107),
    ("camt.108","camt.108.001.01","ChqCxlOrStopReq","ChequeCancellationOrStopRequestV01","camt_108_001_01",Camt108),
    ("camt.109","camt.109.001.01","ChqCxlOrStopRpt","ChequeCancellationOrStopReportV01","camt_109_001_01",Camt109),
    ("admi.024","admi.024.001.01","NtfctnOfCrspdc","NotificationOfCorrespondenceV01","admi_024_001_01",Admi024),
}
pub const NS: &str = "urn:iso:std:iso:20022:tech:xsd:";

/// The header shape every message is read with
pub fn hdr_module(s: &Schema) -> &Module {
    s.hdr("bah_pacs_008_001_08")
}
/// (type index, path) for every element path of every registered message type
pub struct Space {
    pub paths: Vec<(usize, Vec<usize>)>,
    pub hdr_paths: Vec<Vec<usize>>,
}
impl Space {
    pub fn new(s: &Schema) -> Space {
        let mut paths = vec![];
        for (i, mt) in MTS.iter().enumerate() {
            for p in s.doc(mt.module).all_paths() {
                paths.push((i, p));
            }
        }
        Space { paths, hdr_paths: hdr_module(s).all_paths() }
    }
}
pub fn set_text(h: &Module, n: &mut Node, xml: &str, v: &str) {
    let Ty::Ref(t) = n.ty else { return };
    let i = h.fields(t).iter().position(|f| f.xml == xml).unwrap();
    if let Some(x) = n.at_mut(&[i]) {
        x.body = Body::Str(v.to_string());
    }
}
/// a message of type `mt` containing the element at `path`
pub fn message(s: &'static Schema, mt: &MT, path: &[usize], hdr_path: &[usize], r: &mut Rng, cfg: &Cfg, dict: Option<&'static Dict>) -> Msg {
    let m = s.doc(mt.module);
    let h = hdr_module(s);
    let mut cfg = cfg.clone();
    cfg.dict = dict;
    let doc = Gen::new(s, m, Rng::new(r.next()), cfg.clone()).message(path);
    let hc = Cfg { p_opt: cfg.p_opt.max(0.2), list_len: None, ..cfg };
    let mut hdr = Gen::new(s, h, Rng::new(r.next()), hc).message(hdr_path);
    set_text(h, &mut hdr, "MsgDefIdr", mt.full);
    Msg { hdr, doc }
}
pub fn msg_json(s: &Schema, mt: &MT, g: &Msg) -> Value {
    json!({"AppHdr": to_json(hdr_module(s), &g.hdr), "Document": {mt.tag: to_json(s.doc(mt.module), &g.doc)}})
}
pub fn run_validate(d: &Document, path: &str, cfg: &ParserConfig) -> Vec<ValidationError> {
    let mut c = ErrorCollector::new();
    validate_doc(d, path, cfg, &mut c);
    c.errors()
}
pub fn to_value(m: &MxMessage) -> Result<Value, String> {
    let j = m.to_json().map_err(|e| format!("to_json failed: {e}"))?;
    serde_json::from_str(&j).map_err(|e| format!("to_json wrote unreadable JSON: {e}"))
}

/// byte sizes at which software tends to change its behaviour, and those the source under test suggests
pub fn byte_sizes(d: &Dict) -> Vec<usize> {
    let mut v = vec![5_000, 9_000, 17_000, 33_000, 70_000, 140_000, 270_000, 530_000, 1_060_000, 2_200_000];
    for n in d.sizes(6_000_000) {
        if n >= 1000 {
            v.extend([n + n / 8 + 600, n + n / 8 + 600]);
        }
    }
    v
}
/// Grows the message to about `bytes` of XML by repeating entries of one of its lists (or, for a type without
/// lists off the given site, returns false). The last entry of every list on `site` keeps its content.
pub fn bulk(s: &'static Schema, mt: &'static MT, g: &mut Msg, bytes: usize, r: &mut Rng) -> Option<String> {
    let m = s.doc(mt.module);
    let is_list = |p: &Vec<usize>| matches!(m.field_at(p).card, Card::Vec | Card::OptVec);
    let mut lists: Vec<Vec<usize>> = m.all_paths().into_iter().filter(|p| is_list(p)).collect();
    if lists.is_empty() {
        return None;
    }
    // shallow lists are the usual way a message grows
    lists.sort_by_key(|p| p.len());
    let p = if r.chance(0.6) { lists[r.below(lists.len().min(4))].clone() } else { lists[r.below(lists.len())].clone() };
    let cfg = Cfg { p_opt: *r.pick(&[0.05, 0.2]), budget: 300, forced_rep: 1, ..Cfg::default() };
    let mut donors: Vec<Msg> = (0..8).map(|_| message(s, mt, &p, &[], r, &cfg, None)).collect();
    // make the place exist
    for k in 0..p.len() {
        let have = if k == 0 { Some(&g.doc) } else { g.doc.at(&p[..k]) };
        let absent = have?.slots().iter().find(|x| x.field == p[k]).is_none_or(|x| x.occ.is_empty());
        if absent {
            let from = donors[0].doc.slot_mut(&p[..=k])?.clone();
            *g.doc.slot_mut(&p[..=k])? = from;
        }
    }
    let entries: Vec<Node> = donors.iter_mut().filter_map(|d| d.doc.at(&p).cloned()).collect();
    let f = m.field_at(&p);
    let mut w = XmlW::new(EnvStyle::plain().xml);
    for e in &entries {
        w.elem(m, &f.xml, e, 0, "");
    }
    let each = (w.out.len() / entries.len()).max(8);
    let n = (bytes / each).clamp(2, 60_000);
    let slot = g.doc.slot_mut(&p)?;
    let last = slot.occ.clone();
    slot.occ = (0..n).map(|_| entries[r.below(entries.len())].clone()).collect();
    slot.occ.extend(last);
    Some(format!("{}x{n}", m.names(&p)))
}
