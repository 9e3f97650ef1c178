//! P07: game paths map to exactly one file path under the game's content directory.
use mc::core::*;
use unreal_helpers::game_to_absolute;

pub fn p07(ctx: &Ctx) {
    let games = ["Astro", "G", "a$0b", "$1", "${x}", "Ga me", "é", "/Game/", "A\\1"];
    let segs = ["a", "Items", "Game", "b c", "$0", "é.x", ".hid", "x.y.z", "..."];
    let names = ["Conveyor", "Planet.umap", "Item.uasset", "a", "Game", "$1", "ñ", "x.y.z", "b c", ".hid", "x.uexp", "T_1"];
    let roots: [(&str, bool); 12] = [
        ("/Game/", true),
        ("Game/", false),
        ("/game/", false),
        ("/Engine/", false),
        ("", false),
        ("/", false),
        ("//Game/", false),
        ("x/Game/", false),
        ("\n/Game/", false),
        ("/GameX/", false),
        ("/Game", false),
        (" /Game/", false),
    ];
    let depth = ctx.pick(2, 3);
    ctx.bound(format!("{} game names x {} path roots x all directory chains of up to {depth} of {} segments x {} file names", games.len(), roots.len(), segs.len(), names.len()));
    let mut dirs: Vec<String> = vec![String::new()];
    for d in 1..=depth {
        all_seqs(segs.len(), d, |s| {
            dirs.push(s.iter().map(|i| format!("{}/", segs[*i])).collect());
            true
        });
    }
    let fullext = |n: &str| -> bool {
        // a file name has an extension when a dot follows at least one other character
        n.char_indices().any(|(i, c)| c == '.' && i > 0)
    };
    par_for(games.len(), |g| {
        let game = games[g];
        for (root, ok) in roots {
            for d in &dirs {
                for n in names {
                    let p = format!("{root}{d}{n}");
                    let ok = ok || (root == "/Game" && false);
                    let exp = if ok { Some(format!("{game}/Content/{d}{n}{}", if fullext(n) { "" } else { ".uasset" })) } else { None };
                    // roots that only become the game root through the following segment
                    let exp = if !ok && p.starts_with("/Game/") { continue } else { exp };
                    ctx.state();
                    ctx.trace();
                    ctx.step(1);
                    match guard(|| game_to_absolute(game, &p)) {
                        Ok(r) if r == exp => {}
                        r => ctx.violation(&format!("path:{game}:{p}"), format!("game={game:?} path={p:?}: {r:?}, expected {exp:?}")),
                    }
                }
            }
        }
    });
    ctx.sample(|| "Astro /Game/Items/Conveyor -> Astro/Content/Items/Conveyor.uasset".into());
}
