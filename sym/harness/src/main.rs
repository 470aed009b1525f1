#![allow(clippy::all)]
mod proto;
mod rt;

macro_rules! scenarios {
    ($($name:ident => $body:expr;)*) => {
        $(
            #[no_mangle]
            #[inline(never)]
            pub extern "C" fn $name() { $body }
        )*
        fn dispatch(n: &str) {
            match n {
                $(stringify!($name) => $name(),)*
                _ => { eprintln!("no scenario {n}"); std::process::exit(2) }
            }
        }
    };
}

mod aead;
mod eue;
mod fresh;
mod ibke;
mod latke_s;
mod leak;
mod pake;
mod release;
mod saber_s;
use ::latke::ibke::{fg_ibke::FgIbkeC, id_hmqv_c::IdHmqvC, id_sig_dh::IdSigDh, id_sigma_r::{IdSigmaRDilithium2, IdSigmaREd25519}};
use ::latke::pake::{cake::Cake, cpace::Cpace, kc_spake2::KcSpake2};

scenarios! {
    s01_pack3 => saber_s::packing(3);
    s01_pack4 => saber_s::packing(4);
    s01_pack6 => saber_s::packing(6);
    s01_pack10 => saber_s::packing(10);
    s01_pack13 => saber_s::packing(13);
    s01_msg => saber_s::message();
    s02_linear => saber_s::ring_linear();
    s02_mul => saber_s::ring_mul();
    s02_square => saber_s::ring_square();
    s01_vec_light => saber_s::lightsaber::vectors();
    s01_keys_light => saber_s::lightsaber::keys();
    s01_objects_light => saber_s::lightsaber::objects();
    s01_len_light => saber_s::lightsaber::lengths();
    s02_prod_light => saber_s::lightsaber::products();
    s03_rec_light => saber_s::lightsaber::reconcile();
    s03_dec_light => saber_s::lightsaber::decrypts();
    s04_mask_light => saber_s::lightsaber::eq_mask();
    s04_decaps_light => saber_s::lightsaber::decapsulate();
    s04_any_light => saber_s::lightsaber::decaps_any();
    s04_encaps_light => saber_s::lightsaber::encaps();
    s05_expand_light => saber_s::lightsaber::expansion();
    s06_key_light => saber_s::lightsaber::key_pair();
    s06_enc_light => saber_s::lightsaber::encryption();
    s06_dec_light => saber_s::lightsaber::decryption();
    s05_light => saber_s::lightsaber::sampler();
    s01_vec_saber => saber_s::saber::vectors();
    s01_keys_saber => saber_s::saber::keys();
    s01_objects_saber => saber_s::saber::objects();
    s01_len_saber => saber_s::saber::lengths();
    s02_prod_saber => saber_s::saber::products();
    s03_rec_saber => saber_s::saber::reconcile();
    s03_dec_saber => saber_s::saber::decrypts();
    s04_mask_saber => saber_s::saber::eq_mask();
    s04_decaps_saber => saber_s::saber::decapsulate();
    s04_any_saber => saber_s::saber::decaps_any();
    s04_encaps_saber => saber_s::saber::encaps();
    s05_expand_saber => saber_s::saber::expansion();
    s06_key_saber => saber_s::saber::key_pair();
    s06_enc_saber => saber_s::saber::encryption();
    s06_dec_saber => saber_s::saber::decryption();
    s05_saber => saber_s::saber::sampler();
    s01_vec_fire => saber_s::firesaber::vectors();
    s01_keys_fire => saber_s::firesaber::keys();
    s01_objects_fire => saber_s::firesaber::objects();
    s01_len_fire => saber_s::firesaber::lengths();
    s02_prod_fire => saber_s::firesaber::products();
    s03_rec_fire => saber_s::firesaber::reconcile();
    s03_dec_fire => saber_s::firesaber::decrypts();
    s04_mask_fire => saber_s::firesaber::eq_mask();
    s04_decaps_fire => saber_s::firesaber::decapsulate();
    s04_any_fire => saber_s::firesaber::decaps_any();
    s04_encaps_fire => saber_s::firesaber::encaps();
    s05_expand_fire => saber_s::firesaber::expansion();
    s06_key_fire => saber_s::firesaber::key_pair();
    s06_enc_fire => saber_s::firesaber::encryption();
    s06_dec_fire => saber_s::firesaber::decryption();
    s05_fire => saber_s::firesaber::sampler();
    p04_hmqv => ibke::honest::<IdHmqvC>();
    p05_hmqv => ibke::tamper::<IdHmqvC>(15);
    p05_hmqv_m0 => ibke::tamper::<IdHmqvC>(1);
    p05_hmqv_m1 => ibke::tamper::<IdHmqvC>(2);
    p05_hmqv_m2 => ibke::tamper::<IdHmqvC>(4);
    p06_forged_hmqv => ibke::forged::<IdHmqvC>();
    p06_stolen_hmqv => ibke::stolen_cert::<IdHmqvC>();
    p06_recombine_hmqv => ibke::recombine::<IdHmqvC>();
    p08_hmqv => ibke::mismatch::<IdHmqvC>();
    p09_misbind_hmqv => ibke::misbind::<IdHmqvC>();
    p09_names_hmqv => ibke::two_names::<IdHmqvC>();
    p04_sigdh => ibke::honest::<IdSigDh>();
    p05_sigdh => ibke::tamper::<IdSigDh>(15);
    p05_sigdh_m0 => ibke::tamper::<IdSigDh>(1);
    p05_sigdh_m1 => ibke::tamper::<IdSigDh>(2);
    p06_forged_sigdh => ibke::forged::<IdSigDh>();
    p06_stolen_sigdh => ibke::stolen_cert::<IdSigDh>();
    p06_recombine_sigdh => ibke::recombine::<IdSigDh>();
    p07_cross_sigdh => ibke::cross::<IdSigDh>(false);
    p07_replay_sigdh => ibke::cross::<IdSigDh>(true);
    p07_mix_sigdh => ibke::mix2::<IdSigDh>();
    p08_sigdh => ibke::mismatch::<IdSigDh>();
    p04_fg => ibke::honest::<FgIbkeC>();
    p05_fg => ibke::tamper::<FgIbkeC>(15);
    p05_fg_m0 => ibke::tamper::<FgIbkeC>(1);
    p05_fg_m1 => ibke::tamper::<FgIbkeC>(2);
    p05_fg_m2 => ibke::tamper::<FgIbkeC>(4);
    p08_fg => ibke::mismatch::<FgIbkeC>();
    p09_names_fg => ibke::two_names::<FgIbkeC>();
    p04_sigma => ibke::honest::<IdSigmaREd25519>();
    p05_sigma => ibke::tamper::<IdSigmaREd25519>(15);
    p05_sigma_m0 => ibke::tamper::<IdSigmaREd25519>(1);
    p05_sigma_m1 => ibke::tamper::<IdSigmaREd25519>(2);
    p05_sigma_m2 => ibke::tamper::<IdSigmaREd25519>(4);
    p05_sigma_m3 => ibke::tamper::<IdSigmaREd25519>(8);
    p06_forged_sigma => ibke::forged::<IdSigmaREd25519>();
    p06_stolen_sigma => ibke::stolen_cert::<IdSigmaREd25519>();
    p07_cross_sigma => ibke::cross::<IdSigmaREd25519>(false);
    p07_replay_sigma => ibke::cross::<IdSigmaREd25519>(true);
    p07_mix_sigma => ibke::mix2::<IdSigmaREd25519>();
    p08_sigma => ibke::mismatch::<IdSigmaREd25519>();
    p09_names_sigma => ibke::two_names::<IdSigmaREd25519>();
    p04_sigmad => ibke::honest::<IdSigmaRDilithium2>();
    p05_sigmad => ibke::tamper::<IdSigmaRDilithium2>(15);
    p05_sigmad_m0 => ibke::tamper::<IdSigmaRDilithium2>(1);
    p05_sigmad_m1 => ibke::tamper::<IdSigmaRDilithium2>(2);
    p05_sigmad_m2 => ibke::tamper::<IdSigmaRDilithium2>(4);
    p05_sigmad_m3 => ibke::tamper::<IdSigmaRDilithium2>(8);
    p06_forged_sigmad => ibke::forged::<IdSigmaRDilithium2>();
    p06_stolen_sigmad => ibke::stolen_cert::<IdSigmaRDilithium2>();
    p07_cross_sigmad => ibke::cross::<IdSigmaRDilithium2>(false);
    p07_replay_sigmad => ibke::cross::<IdSigmaRDilithium2>(true);
    p07_mix_sigmad => ibke::mix2::<IdSigmaRDilithium2>();
    p08_sigmad => ibke::mismatch::<IdSigmaRDilithium2>();
    p09_names_sigmad => ibke::two_names::<IdSigmaRDilithium2>();
    p01_spake2 => pake::honest::<KcSpake2>(3);
    p01_cpace => pake::honest::<Cpace>(2);
    p01_cake => pake::honest::<Cake>(2);
    p02_spake2 => pake::mismatch::<KcSpake2>(true);
    p02_cpace => pake::mismatch::<Cpace>(false);
    p02_cake => pake::mismatch::<Cake>(false);
    p03_spake2 => pake::tamper();
    p03_reflect => pake::reflect();
    p11_roundtrip => aead::roundtrip(&[0, 1, 12, 31, 32, 33, 63, 64, 65, 100, 128, 129]);
    p11_tamper => aead::tamper(&[0, 1, 12, 32, 64, 65, 100]);
    p11_short => aead::short();
    p10_nonces => aead::nonces();
    p12_inverse => aead::wide_inverse(&[32, 33, 40, 64, 65, 100, 672, 736]);
    p12_spec => aead::wide_spec(&[32, 33, 40, 64, 65, 100, 672, 736]);
    p12_keyed => aead::wide_keyed(&[32, 33, 64, 100]);
    p12_diffusion => aead::wide_diffusion(&[32, 33, 64, 100]);
    p14_honest_hmqv => eue::honest::<IdHmqvC>();
    p14_mismatch_hmqv => eue::mismatch::<IdHmqvC>();
    p13_fail_hmqv_m0 => eue::fail::<IdHmqvC>(0);
    p14_replay_hmqv_m0 => eue::replay::<IdHmqvC>(0);
    p13_fail_hmqv_m1 => eue::fail::<IdHmqvC>(1);
    p14_replay_hmqv_m1 => eue::replay::<IdHmqvC>(1);
    p13_fail_hmqv_m2 => eue::fail::<IdHmqvC>(2);
    p14_replay_hmqv_m2 => eue::replay::<IdHmqvC>(2);
    p15_hmqv => latke_s::honest::<IdHmqvC, KcSpake2>();
    p16_mismatch_hmqv => latke_s::mismatch::<IdHmqvC, KcSpake2>();
    p16_tamper_hmqv_m0 => latke_s::tamper::<IdHmqvC, KcSpake2>(0);
    p16_tamper_hmqv_m1 => latke_s::tamper::<IdHmqvC, KcSpake2>(1);
    p16_tamper_hmqv_m2 => latke_s::tamper::<IdHmqvC, KcSpake2>(2);
    p16_tamper_hmqv_m3 => latke_s::tamper::<IdHmqvC, KcSpake2>(3);
    p16_tamper_hmqv_m4 => latke_s::tamper::<IdHmqvC, KcSpake2>(4);
    p16_tamper_hmqv_m5 => latke_s::tamper::<IdHmqvC, KcSpake2>(5);
    p17_hmqv => latke_s::pwfile::<IdHmqvC, KcSpake2>();
    p14_honest_sigdh => eue::honest::<IdSigDh>();
    p14_mismatch_sigdh => eue::mismatch::<IdSigDh>();
    p13_fail_sigdh_m0 => eue::fail::<IdSigDh>(0);
    p14_replay_sigdh_m0 => eue::replay::<IdSigDh>(0);
    p13_fail_sigdh_m1 => eue::fail::<IdSigDh>(1);
    p14_replay_sigdh_m1 => eue::replay::<IdSigDh>(1);
    p15_sigdh => latke_s::honest::<IdSigDh, KcSpake2>();
    p16_mismatch_sigdh => latke_s::mismatch::<IdSigDh, KcSpake2>();
    p16_tamper_sigdh_m0 => latke_s::tamper::<IdSigDh, KcSpake2>(0);
    p16_tamper_sigdh_m1 => latke_s::tamper::<IdSigDh, KcSpake2>(1);
    p16_tamper_sigdh_m2 => latke_s::tamper::<IdSigDh, KcSpake2>(2);
    p16_tamper_sigdh_m3 => latke_s::tamper::<IdSigDh, KcSpake2>(3);
    p16_tamper_sigdh_m4 => latke_s::tamper::<IdSigDh, KcSpake2>(4);
    p17_sigdh => latke_s::pwfile::<IdSigDh, KcSpake2>();
    p14_honest_fg => eue::honest::<FgIbkeC>();
    p14_mismatch_fg => eue::mismatch::<FgIbkeC>();
    p13_fail_fg_m0 => eue::fail::<FgIbkeC>(0);
    p14_replay_fg_m0 => eue::replay::<FgIbkeC>(0);
    p13_fail_fg_m1 => eue::fail::<FgIbkeC>(1);
    p14_replay_fg_m1 => eue::replay::<FgIbkeC>(1);
    p13_fail_fg_m2 => eue::fail::<FgIbkeC>(2);
    p14_replay_fg_m2 => eue::replay::<FgIbkeC>(2);
    p15_fg => latke_s::honest::<FgIbkeC, KcSpake2>();
    p16_mismatch_fg => latke_s::mismatch::<FgIbkeC, KcSpake2>();
    p16_tamper_fg_m0 => latke_s::tamper::<FgIbkeC, KcSpake2>(0);
    p16_tamper_fg_m1 => latke_s::tamper::<FgIbkeC, KcSpake2>(1);
    p16_tamper_fg_m2 => latke_s::tamper::<FgIbkeC, KcSpake2>(2);
    p16_tamper_fg_m3 => latke_s::tamper::<FgIbkeC, KcSpake2>(3);
    p16_tamper_fg_m4 => latke_s::tamper::<FgIbkeC, KcSpake2>(4);
    p16_tamper_fg_m5 => latke_s::tamper::<FgIbkeC, KcSpake2>(5);
    p17_fg => latke_s::pwfile::<FgIbkeC, KcSpake2>();
    p14_honest_sigma => eue::honest::<IdSigmaREd25519>();
    p14_mismatch_sigma => eue::mismatch::<IdSigmaREd25519>();
    p13_fail_sigma_m0 => eue::fail::<IdSigmaREd25519>(0);
    p14_replay_sigma_m0 => eue::replay::<IdSigmaREd25519>(0);
    p13_fail_sigma_m1 => eue::fail::<IdSigmaREd25519>(1);
    p14_replay_sigma_m1 => eue::replay::<IdSigmaREd25519>(1);
    p13_fail_sigma_m2 => eue::fail::<IdSigmaREd25519>(2);
    p14_replay_sigma_m2 => eue::replay::<IdSigmaREd25519>(2);
    p13_fail_sigma_m3 => eue::fail::<IdSigmaREd25519>(3);
    p14_replay_sigma_m3 => eue::replay::<IdSigmaREd25519>(3);
    p15_sigma => latke_s::honest::<IdSigmaREd25519, Cake>();
    p16_mismatch_sigma => latke_s::mismatch::<IdSigmaREd25519, Cake>();
    p16_tamper_sigma_m0 => latke_s::tamper::<IdSigmaREd25519, Cake>(0);
    p16_tamper_sigma_m1 => latke_s::tamper::<IdSigmaREd25519, Cake>(1);
    p16_tamper_sigma_m2 => latke_s::tamper::<IdSigmaREd25519, Cake>(2);
    p16_tamper_sigma_m3 => latke_s::tamper::<IdSigmaREd25519, Cake>(3);
    p16_tamper_sigma_m4 => latke_s::tamper::<IdSigmaREd25519, Cake>(4);
    p16_tamper_sigma_m5 => latke_s::tamper::<IdSigmaREd25519, Cake>(5);
    p17_sigma => latke_s::pwfile::<IdSigmaREd25519, Cake>();
    p14_honest_sigmad => eue::honest::<IdSigmaRDilithium2>();
    p14_mismatch_sigmad => eue::mismatch::<IdSigmaRDilithium2>();
    p13_fail_sigmad_m0 => eue::fail::<IdSigmaRDilithium2>(0);
    p14_replay_sigmad_m0 => eue::replay::<IdSigmaRDilithium2>(0);
    p13_fail_sigmad_m1 => eue::fail::<IdSigmaRDilithium2>(1);
    p14_replay_sigmad_m1 => eue::replay::<IdSigmaRDilithium2>(1);
    p13_fail_sigmad_m2 => eue::fail::<IdSigmaRDilithium2>(2);
    p14_replay_sigmad_m2 => eue::replay::<IdSigmaRDilithium2>(2);
    p13_fail_sigmad_m3 => eue::fail::<IdSigmaRDilithium2>(3);
    p14_replay_sigmad_m3 => eue::replay::<IdSigmaRDilithium2>(3);
    p15_sigmad => latke_s::honest::<IdSigmaRDilithium2, Cake>();
    p16_mismatch_sigmad => latke_s::mismatch::<IdSigmaRDilithium2, Cake>();
    p16_tamper_sigmad_m0 => latke_s::tamper::<IdSigmaRDilithium2, Cake>(0);
    p16_tamper_sigmad_m1 => latke_s::tamper::<IdSigmaRDilithium2, Cake>(1);
    p16_tamper_sigmad_m2 => latke_s::tamper::<IdSigmaRDilithium2, Cake>(2);
    p16_tamper_sigmad_m3 => latke_s::tamper::<IdSigmaRDilithium2, Cake>(3);
    p16_tamper_sigmad_m4 => latke_s::tamper::<IdSigmaRDilithium2, Cake>(4);
    p16_tamper_sigmad_m5 => latke_s::tamper::<IdSigmaRDilithium2, Cake>(5);
    p17_sigmad => latke_s::pwfile::<IdSigmaRDilithium2, Cake>();
    p16_mitm_hmqv => latke_s::mitm::<IdHmqvC, KcSpake2>();
    p16_mitm_sigdh => latke_s::mitm::<IdSigDh, KcSpake2>();
    p16_mitm_fg => latke_s::mitm::<FgIbkeC, KcSpake2>();
    p16_mitm_sigma => latke_s::mitm::<IdSigmaREd25519, Cake>();
    p16_mitm_sigmad => latke_s::mitm::<IdSigmaRDilithium2, Cake>();
    p15_sigdh_cpace => latke_s::honest::<IdSigDh, Cpace>();
    p16_mismatch_sigdh_cpace => latke_s::mismatch::<IdSigDh, Cpace>();
    p16_tamper_sigdh_cpace_m0 => latke_s::tamper::<IdSigDh, Cpace>(0);
    p16_tamper_sigdh_cpace_m1 => latke_s::tamper::<IdSigDh, Cpace>(1);
    p16_tamper_sigdh_cpace_m2 => latke_s::tamper::<IdSigDh, Cpace>(2);
    p16_tamper_sigdh_cpace_m3 => latke_s::tamper::<IdSigDh, Cpace>(3);
    p18_honest_spake2 => latke_s::chip_honest::<KcSpake2>();
    p18_mismatch_spake2 => latke_s::chip_mismatch::<KcSpake2>();
    p18_tamper_spake2_m0 => latke_s::chip_tamper::<KcSpake2>(0);
    p18_tamper_spake2_m1 => latke_s::chip_tamper::<KcSpake2>(1);
    p18_tamper_spake2_m2 => latke_s::chip_tamper::<KcSpake2>(2);
    p18_tamper_spake2_m3 => latke_s::chip_tamper::<KcSpake2>(3);
    p18_tamper_spake2_m4 => latke_s::chip_tamper::<KcSpake2>(4);
    p18_honest_cpace => latke_s::chip_honest::<Cpace>();
    p18_mismatch_cpace => latke_s::chip_mismatch::<Cpace>();
    p18_tamper_cpace_m0 => latke_s::chip_tamper::<Cpace>(0);
    p18_tamper_cpace_m1 => latke_s::chip_tamper::<Cpace>(1);
    p18_tamper_cpace_m2 => latke_s::chip_tamper::<Cpace>(2);
    p18_tamper_cpace_m3 => latke_s::chip_tamper::<Cpace>(3);
    p18_honest_cake => latke_s::chip_honest::<Cake>();
    p18_mismatch_cake => latke_s::chip_mismatch::<Cake>();
    p18_tamper_cake_m0 => latke_s::chip_tamper::<Cake>(0);
    p18_tamper_cake_m1 => latke_s::chip_tamper::<Cake>(1);
    p18_tamper_cake_m2 => latke_s::chip_tamper::<Cake>(2);
    p18_tamper_cake_m3 => latke_s::chip_tamper::<Cake>(3);
    p19_early_spake2 => release::early_pake::<KcSpake2>(3);
    p19_failed_spake2 => release::failed_pake::<KcSpake2>(3);
    p19_early_cpace => release::early_pake::<Cpace>(2);
    p19_early_cake => release::early_pake::<Cake>(2);
    p19_early_hmqv => release::early_ibke::<IdHmqvC>();
    p19_failed_hmqv => release::failed_ibke::<IdHmqvC>();
    p19_sim_hmqv => release::sim::<IdHmqvC>();
    p19_early_sigdh => release::early_ibke::<IdSigDh>();
    p19_failed_sigdh => release::failed_ibke::<IdSigDh>();
    p19_sim_sigdh => release::sim::<IdSigDh>();
    p19_early_fg => release::early_ibke::<FgIbkeC>();
    p19_failed_fg => release::failed_ibke::<FgIbkeC>();
    p19_sim_fg => release::sim::<FgIbkeC>();
    p19_early_sigma => release::early_ibke::<IdSigmaREd25519>();
    p19_failed_sigma => release::failed_ibke::<IdSigmaREd25519>();
    p19_sim_sigma => release::sim::<IdSigmaREd25519>();
    p19_early_sigmad => release::early_ibke::<IdSigmaRDilithium2>();
    p19_failed_sigmad => release::failed_ibke::<IdSigmaRDilithium2>();
    p19_sim_sigmad => release::sim::<IdSigmaRDilithium2>();
    p10_spake2 => fresh::pake::<KcSpake2>(&[(0, 1, 33), (1, 1, 33)]);
    p10_chip_spake2 => fresh::chip::<KcSpake2>();
    p10_cpace => fresh::pake::<Cpace>(&[(0, 0, 16), (0, 16, 48), (1, 0, 32)]);
    p10_chip_cpace => fresh::chip::<Cpace>();
    p10_cake => fresh::pake::<Cake>(&[(0, 0, 672), (1, 0, 736)]);
    p10_chip_cake => fresh::chip::<Cake>();
    p10_hmqv => fresh::ibke::<IdHmqvC>();
    p10_latke_hmqv => fresh::latke::<IdHmqvC, KcSpake2>();
    p10_sigdh => fresh::ibke::<IdSigDh>();
    p10_latke_sigdh => fresh::latke::<IdSigDh, KcSpake2>();
    p10_fg => fresh::ibke::<FgIbkeC>();
    p10_latke_fg => fresh::latke::<FgIbkeC, KcSpake2>();
    p10_sigma => fresh::ibke::<IdSigmaREd25519>();
    p10_latke_sigma => fresh::latke::<IdSigmaREd25519, Cake>();
    p10_sigmad => fresh::ibke::<IdSigmaRDilithium2>();
    p10_latke_sigmad => fresh::latke::<IdSigmaRDilithium2, Cake>();
    p10_latke_sigdh_cpace => fresh::latke::<IdSigDh, Cpace>();
    p20_spake2 => leak::pake::<KcSpake2>(4);
    p20_chip_spake2 => leak::chip::<KcSpake2>(14);
    p20_cpace => leak::pake::<Cpace>(0);
    p20_chip_cpace => leak::chip::<Cpace>(10);
    p20_cake => leak::pake::<Cake>(0);
    p20_chip_cake => leak::chip::<Cake>(10);
    p20_hmqv => leak::ibke::<IdHmqvC>(4);
    p20_latke_hmqv => leak::latke::<IdHmqvC, KcSpake2>(18);
    p20_sigdh => leak::ibke::<IdSigDh>(4);
    p20_latke_sigdh => leak::latke::<IdSigDh, KcSpake2>(18);
    p20_fg => leak::ibke::<FgIbkeC>(8);
    p20_latke_fg => leak::latke::<FgIbkeC, KcSpake2>(22);
    p20_sigma => leak::ibke::<IdSigmaREd25519>(8);
    p20_latke_sigma => leak::latke::<IdSigmaREd25519, Cake>(22);
    p20_sigmad => leak::ibke::<IdSigmaRDilithium2>(8);
    p20_latke_sigmad => leak::latke::<IdSigmaRDilithium2, Cake>(22);
    p20_latke_sigdh_cpace => leak::latke::<IdSigDh, Cpace>(10);
}

fn main() {
    let n = std::env::args().nth(1).expect("scenario name");
    rt::native_main(|| dispatch(&n));
}
