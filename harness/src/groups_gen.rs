// Generated by tools/gen_groups.py
pub const NG_VALID: usize = 166;
pub const NG: usize = 200;
pub static GROUPS: [GroupVt; NG] = [
    gvv::<C0>(),
    gvt::<C1>(),
    gvt::<C2>(),
    gvt::<C3>(),
    gvt::<C4>(),
    gvt::<C5>(),
    gvt::<C6>(),
    gvt::<C7>(),
    gvt::<C8>(),
    gvv::<C9>(),
    gvt::<C10>(),
    gvt::<C11>(),
    gvt::<C12>(),
    gvt::<C13>(),
    gvt::<C14>(),
    gvt::<C15>(),
    gvt::<C16>(),
    gvt::<C17>(),
    gvv::<C18>(),
    gvt::<C19>(),
    gvt::<C20>(),
    gvt::<C21>(),
    gvt::<C22>(),
    gvt::<C23>(),
    gvt::<C24>(),
    gvt::<C25>(),
    gvt::<(C0, C1)>(),
    gvv::<(C0, C5)>(),
    gvt::<(C0, C8)>(),
    gvt::<(C1, C0)>(),
    gvt::<(C1, C5)>(),
    gvt::<(C1, C8)>(),
    gvt::<(C5, C0)>(),
    gvt::<(C5, C1)>(),
    gvt::<(C5, C8)>(),
    gvt::<(C8, C0)>(),
    gvv::<(C8, C1)>(),
    gvt::<(C8, C5)>(),
    gvt::<(C0, C1, C5, C8)>(),
    gvt::<(C0, C1, C8, C5)>(),
    gvt::<(C0, C5, C1, C8)>(),
    gvt::<(C0, C5, C8, C1)>(),
    gvt::<(C0, C8, C1, C5)>(),
    gvt::<(C0, C8, C5, C1)>(),
    gvt::<(C1, C0, C5, C8)>(),
    gvv::<(C1, C0, C8, C5)>(),
    gvt::<(C1, C5, C0, C8)>(),
    gvt::<(C1, C5, C8, C0)>(),
    gvt::<(C1, C8, C0, C5)>(),
    gvt::<(C1, C8, C5, C0)>(),
    gvt::<(C5, C0, C1, C8)>(),
    gvt::<(C5, C0, C8, C1)>(),
    gvt::<(C5, C1, C0, C8)>(),
    gvt::<(C5, C1, C8, C0)>(),
    gvv::<(C5, C8, C0, C1)>(),
    gvt::<(C5, C8, C1, C0)>(),
    gvt::<(C8, C0, C1, C5)>(),
    gvt::<(C8, C0, C5, C1)>(),
    gvt::<(C8, C1, C0, C5)>(),
    gvt::<(C8, C1, C5, C0)>(),
    gvt::<(C8, C5, C0, C1)>(),
    gvt::<(C8, C5, C1, C0)>(),
    gvt::<(C0, C1, C5)>(),
    gvv::<(C0, C5, C8)>(),
    gvt::<(C1, C0, C5)>(),
    gvt::<(C1, C5, C8)>(),
    gvt::<(C5, C0, C1)>(),
    gvt::<(C5, C1, C8)>(),
    gvt::<(C8, C0, C1)>(),
    gvt::<(C8, C1, C5)>(),
    gvt::<(C14, C4)>(),
    gvt::<(C4, C14)>(),
    gvv::<(C14, C4, C6)>(),
    gvt::<(C14, C6, C4)>(),
    gvt::<(C10, C6, C4, C14)>(),
    gvt::<(C6, C14, C4, C10)>(),
    gvt::<(C4, C0, C10, C6, C14)>(),
    gvt::<(C6, C0, C14, C4, C10)>(),
    gvt::<(C7, C14, C4, C0, C10, C6)>(),
    gvt::<(C4, C0, C7, C6, C14, C10)>(),
    gvt::<(C6, C4, C14, C10, C0, C8, C7)>(),
    gvv::<(C4, C0, C6, C10, C14, C8, C7)>(),
    gvt::<(C0, C6, C14, C4, C7, C11, C10, C8)>(),
    gvt::<(C6, C8, C7, C0, C11, C14, C10, C4)>(),
    gvt::<(C4, C8, C6, C14, C0, C7, C5, C11, C10)>(),
    gvt::<(C6, C11, C5, C14, C0, C8, C7, C4, C10)>(),
    gvt::<(C4, C5, C7, C2, C14, C8, C10, C0, C11, C6)>(),
    gvt::<(C7, C6, C2, C4, C0, C5, C8, C14, C11, C10)>(),
    gvt::<(C2, C0, C10, C7, C14, C6, C4, C5, C12, C8, C11)>(),
    gvt::<(C14, C2, C0, C10, C11, C7, C6, C12, C5, C8, C4)>(),
    gvv::<(C14, C4, C5, C12, C19, C11, C0, C8, C2, C6, C7, C10)>(),
    gvt::<(C7, C19, C12, C8, C11, C2, C14, C6, C0, C4, C5, C10)>(),
    gvt::<(C2, C5, C8, C19, C4, C14, C7, C12, C0, C3, C6, C11, C10)>(),
    gvt::<(C6, C5, C8, C19, C3, C4, C11, C10, C7, C0, C2, C12, C14)>(),
    gvt::<(C3, C19, C12, C2, C5, C11, C8, C7, C0, C10, C6, C14, C4)>(),
    gvt::<(C3, C9, C12, C19, C8, C0, C4, C14, C7, C10, C6, C11, C5, C2)>(),
    gvt::<(C14, C4, C19, C3, C12, C10, C7, C5, C8, C0, C6, C2, C9, C11)>(),
    gvt::<(C9, C3, C19, C12, C2, C5, C11, C8, C7, C0, C10, C6, C14, C4)>(),
    gvt::<(C19, C6)>(),
    gvv::<(C19, C6, C11)>(),
    gvt::<(C19, C9, C11, C6)>(),
    gvt::<(C16, C6, C11, C9, C19)>(),
    gvt::<(C9, C11, C6, C19, C14, C16)>(),
    gvt::<(C9, C6, C19, C2, C11, C14, C16)>(),
    gvt::<(C0, C14, C2, C11, C6, C16, C9, C19)>(),
    gvt::<(C0, C5, C16, C14, C19, C11, C9, C2, C6)>(),
    gvt::<(C6, C11, C0, C9, C5, C19, C14, C2, C7, C16)>(),
    gvt::<(C16, C0, C19, C9, C14, C6, C13, C2, C11, C7, C5)>(),
    gvv::<(C7, C2, C19, C0, C16, C6, C3, C5, C13, C11, C14, C9)>(),
    gvt::<(C19, C17, C3, C13, C7, C16, C5, C2, C6, C14, C11, C9, C0)>(),
    gvt::<(C17, C3, C13, C7, C5, C0, C2, C14, C16, C9, C11, C19, C6)>(),
    gvt::<(C3, C7, C17, C19, C16, C6, C9, C0, C14, C5, C2, C4, C11, C13)>(),
    gvt::<(C4, C17, C3, C13, C7, C5, C0, C2, C14, C16, C9, C11, C19, C6)>(),
    gvt::<(C8, C19)>(),
    gvt::<(C11, C10, C12)>(),
    gvt::<(C2, C19, C8, C16)>(),
    gvt::<(C9, C6, C13, C1, C16)>(),
    gvv::<(C15, C13, C11, C2, C16, C3)>(),
    gvt::<(C13, C18, C7, C2, C15, C8, C9)>(),
    gvt::<(C15, C13, C12, C6, C1, C14, C9, C18)>(),
    gvt::<(C9, C13, C4, C19, C2, C7, C5, C18, C10)>(),
    gvt::<(C5, C9, C8, C1, C16, C18, C4, C0, C15, C6)>(),
    gvt::<(C2, C15, C13, C8, C1, C9, C19, C7, C11, C6, C0)>(),
    gvt::<(C18, C3, C2, C10, C5, C15, C7, C6, C19, C11, C1, C16)>(),
    gvt::<(C8, C2, C1, C9, C18, C11, C15, C0, C14, C7, C12, C13)>(),
    gvt::<(C17, C6, C9, C3, C0, C11, C13, C4, C19, C5, C12, C18, C2)>(),
    gvv::<(C11, C17, C0, C13, C16, C15, C7, C18, C8, C1, C5, C19, C2)>(),
    gvt::<(C4, C1, C12, C9, C15, C8, C14, C11, C7, C19, C6, C3, C17, C5)>(),
    gvt::<(C0, C7, C3, C2, C5, C15, C9, C10, C14, C18, C1, C17, C8, C6)>(),
    gvt::<(C20, C21)>(),
    gvt::<(C22, C1)>(),
    gvt::<(C21, C8, C20)>(),
    gvt::<(C25, C23)>(),
    gvt::<(C24, C22, C0)>(),
    gvt::<(C9, C24)>(),
    gvv::<(C25, C20, C21, C22, C23, C24)>(),
    gvt::<(C5, C22, C16, C25)>(),
    gvt::<(C23, C10, C21)>(),
    gvt::<C26>(),
    gvt::<C27>(),
    gvt::<C28>(),
    gvt::<C29>(),
    gvt::<C30>(),
    gvt::<C31>(),
    gvv::<(C10, C11, C3, C4, C17, C1, C6, C12)>(),
    gvt::<(C11, C12, C4, C10, C17, C6, C1, C3)>(),
    gvt::<(C1, C3, C4, C6, C10, C11, C12, C17)>(),
    gvt::<(C6, C19, C3, C11, C1, C18, C9, C17)>(),
    gvt::<(C6, C17, C19, C1, C9, C18, C11, C3)>(),
    gvt::<(C1, C3, C6, C9, C11, C17, C18, C19)>(),
    gvt::<(C1, C18, C17, C5, C2, C8, C13, C0, C6, C3, C9)>(),
    gvt::<(C3, C6, C1, C18, C17, C0, C9, C2, C13, C8, C5)>(),
    gvt::<(C0, C1, C2, C3, C5, C6, C8, C9, C13, C17, C18)>(),
    gvv::<(C4, C15, C13, C6, C11, C0, C18, C1, C2, C10, C5)>(),
    gvt::<(C10, C0, C18, C6, C11, C15, C5, C2, C1, C4, C13)>(),
    gvt::<(C0, C1, C2, C4, C5, C6, C10, C11, C13, C15, C18)>(),
    gvt::<(C28, C29, C26, C27)>(),
    gvt::<(C28, C27, C26, C29)>(),
    gvt::<(C26, C27, C28, C29)>(),
    gvt::<(C30, C31)>(),
    gvt::<(C31, C30)>(),
    gvt::<(C26, C27)>(),
    gvv::<(C28, C29, C26)>(),
    gvt::<(C5, C30)>(),
    gvt::<(C8, C31, C5)>(),
    gvt::<(C29, C28, C27, C26, C5)>(),
    gvt::<(C0, C0)>(),
    gvt::<(C1, C1)>(),
    gvt::<(C8, C8)>(),
    gvt::<(C5, C8, C5)>(),
    gvt::<(C1, C5, C5)>(),
    gvv::<(C9, C9, C9)>(),
    gvt::<(C0, C1, C5, C8, C0)>(),
    gvt::<(C13, C4, C7, C4)>(),
    gvt::<(C4, C10, C8, C8, C17, C15)>(),
    gvt::<(C6, C15, C8, C5, C12, C2, C14, C2)>(),
    gvt::<(C4, C14, C12, C3, C6, C9, C3, C1, C8)>(),
    gvt::<(C17, C4, C12, C14, C3, C19, C10, C8, C3, C11, C0)>(),
    gvt::<(C4, C16, C14, C11, C12, C3, C13, C6, C18, C19, C2, C19, C10)>(),
    gvt::<(C9, C2, C3, C15, C5, C19, C12, C8, C17, C13, C11, C4, C13, C0)>(),
    gvv::<(C11, C7, C11)>(),
    gvt::<(C7, C17, C19, C7)>(),
    gvt::<(C16, C1, C7, C9, C16)>(),
    gvt::<(C14, C3, C19, C8, C0, C14)>(),
    gvt::<(C18, C15, C8, C11, C7, C12, C18)>(),
    gvt::<(C18, C3, C1, C10, C12, C17, C14, C18)>(),
    gvt::<(C4, C18, C16, C14, C8, C7, C6, C10, C4)>(),
    gvt::<(C1, C10, C6, C19, C13, C0, C11, C18, C17, C1)>(),
    gvt::<(C13, C2, C18, C7, C16, C14, C8, C0, C3, C10, C13)>(),
    gvv::<(C6, C10, C1, C12, C5, C17, C14, C0, C3, C18, C7, C6)>(),
    gvt::<(C8, C16, C7, C0, C3, C15, C5, C4, C10, C18, C17, C6, C8)>(),
    gvt::<(C14, C7, C16, C2, C12, C11, C1, C10, C13, C9, C0, C19, C3, C14)>(),
    gvt::<(C11, C11, C4, C16)>(),
    gvt::<(C9, C18, C10, C10)>(),
    gvt::<(C5, C5, C19, C7, C15, C1, C3)>(),
    gvt::<(C5, C0, C7, C11, C15, C4, C4)>(),
    gvt::<(C17, C17, C13, C2, C18, C9, C15, C14, C16, C6, C10, C8)>(),
    gvt::<(C19, C7, C15, C13, C3, C6, C12, C2, C4, C18, C8, C8)>(),
    gvv::<(C4, C4, C5, C2, C9, C16, C10, C12, C3, C6, C19, C0, C14, C8)>(),
    gvt::<(C7, C12, C6, C15, C10, C14, C8, C18, C9, C2, C17, C0, C5, C5)>(),
];
#[macro_export]
macro_rules! for_all_groups {
    ($m:ident) => {
        $m!(0, C0);
        $m!(1, C1);
        $m!(2, C2);
        $m!(3, C3);
        $m!(4, C4);
        $m!(5, C5);
        $m!(6, C6);
        $m!(7, C7);
        $m!(8, C8);
        $m!(9, C9);
        $m!(10, C10);
        $m!(11, C11);
        $m!(12, C12);
        $m!(13, C13);
        $m!(14, C14);
        $m!(15, C15);
        $m!(16, C16);
        $m!(17, C17);
        $m!(18, C18);
        $m!(19, C19);
        $m!(20, C20);
        $m!(21, C21);
        $m!(22, C22);
        $m!(23, C23);
        $m!(24, C24);
        $m!(25, C25);
        $m!(26, (C0, C1));
        $m!(27, (C0, C5));
        $m!(28, (C0, C8));
        $m!(29, (C1, C0));
        $m!(30, (C1, C5));
        $m!(31, (C1, C8));
        $m!(32, (C5, C0));
        $m!(33, (C5, C1));
        $m!(34, (C5, C8));
        $m!(35, (C8, C0));
        $m!(36, (C8, C1));
        $m!(37, (C8, C5));
        $m!(38, (C0, C1, C5, C8));
        $m!(39, (C0, C1, C8, C5));
        $m!(40, (C0, C5, C1, C8));
        $m!(41, (C0, C5, C8, C1));
        $m!(42, (C0, C8, C1, C5));
        $m!(43, (C0, C8, C5, C1));
        $m!(44, (C1, C0, C5, C8));
        $m!(45, (C1, C0, C8, C5));
        $m!(46, (C1, C5, C0, C8));
        $m!(47, (C1, C5, C8, C0));
        $m!(48, (C1, C8, C0, C5));
        $m!(49, (C1, C8, C5, C0));
        $m!(50, (C5, C0, C1, C8));
        $m!(51, (C5, C0, C8, C1));
        $m!(52, (C5, C1, C0, C8));
        $m!(53, (C5, C1, C8, C0));
        $m!(54, (C5, C8, C0, C1));
        $m!(55, (C5, C8, C1, C0));
        $m!(56, (C8, C0, C1, C5));
        $m!(57, (C8, C0, C5, C1));
        $m!(58, (C8, C1, C0, C5));
        $m!(59, (C8, C1, C5, C0));
        $m!(60, (C8, C5, C0, C1));
        $m!(61, (C8, C5, C1, C0));
        $m!(62, (C0, C1, C5));
        $m!(63, (C0, C5, C8));
        $m!(64, (C1, C0, C5));
        $m!(65, (C1, C5, C8));
        $m!(66, (C5, C0, C1));
        $m!(67, (C5, C1, C8));
        $m!(68, (C8, C0, C1));
        $m!(69, (C8, C1, C5));
        $m!(70, (C14, C4));
        $m!(71, (C4, C14));
        $m!(72, (C14, C4, C6));
        $m!(73, (C14, C6, C4));
        $m!(74, (C10, C6, C4, C14));
        $m!(75, (C6, C14, C4, C10));
        $m!(76, (C4, C0, C10, C6, C14));
        $m!(77, (C6, C0, C14, C4, C10));
        $m!(78, (C7, C14, C4, C0, C10, C6));
        $m!(79, (C4, C0, C7, C6, C14, C10));
        $m!(80, (C6, C4, C14, C10, C0, C8, C7));
        $m!(81, (C4, C0, C6, C10, C14, C8, C7));
        $m!(82, (C0, C6, C14, C4, C7, C11, C10, C8));
        $m!(83, (C6, C8, C7, C0, C11, C14, C10, C4));
        $m!(84, (C4, C8, C6, C14, C0, C7, C5, C11, C10));
        $m!(85, (C6, C11, C5, C14, C0, C8, C7, C4, C10));
        $m!(86, (C4, C5, C7, C2, C14, C8, C10, C0, C11, C6));
        $m!(87, (C7, C6, C2, C4, C0, C5, C8, C14, C11, C10));
        $m!(88, (C2, C0, C10, C7, C14, C6, C4, C5, C12, C8, C11));
        $m!(89, (C14, C2, C0, C10, C11, C7, C6, C12, C5, C8, C4));
        $m!(90, (C14, C4, C5, C12, C19, C11, C0, C8, C2, C6, C7, C10));
        $m!(91, (C7, C19, C12, C8, C11, C2, C14, C6, C0, C4, C5, C10));
        $m!(92, (C2, C5, C8, C19, C4, C14, C7, C12, C0, C3, C6, C11, C10));
        $m!(93, (C6, C5, C8, C19, C3, C4, C11, C10, C7, C0, C2, C12, C14));
        $m!(94, (C3, C19, C12, C2, C5, C11, C8, C7, C0, C10, C6, C14, C4));
        $m!(95, (C3, C9, C12, C19, C8, C0, C4, C14, C7, C10, C6, C11, C5, C2));
        $m!(96, (C14, C4, C19, C3, C12, C10, C7, C5, C8, C0, C6, C2, C9, C11));
        $m!(97, (C9, C3, C19, C12, C2, C5, C11, C8, C7, C0, C10, C6, C14, C4));
        $m!(98, (C19, C6));
        $m!(99, (C19, C6, C11));
        $m!(100, (C19, C9, C11, C6));
        $m!(101, (C16, C6, C11, C9, C19));
        $m!(102, (C9, C11, C6, C19, C14, C16));
        $m!(103, (C9, C6, C19, C2, C11, C14, C16));
        $m!(104, (C0, C14, C2, C11, C6, C16, C9, C19));
        $m!(105, (C0, C5, C16, C14, C19, C11, C9, C2, C6));
        $m!(106, (C6, C11, C0, C9, C5, C19, C14, C2, C7, C16));
        $m!(107, (C16, C0, C19, C9, C14, C6, C13, C2, C11, C7, C5));
        $m!(108, (C7, C2, C19, C0, C16, C6, C3, C5, C13, C11, C14, C9));
        $m!(109, (C19, C17, C3, C13, C7, C16, C5, C2, C6, C14, C11, C9, C0));
        $m!(110, (C17, C3, C13, C7, C5, C0, C2, C14, C16, C9, C11, C19, C6));
        $m!(111, (C3, C7, C17, C19, C16, C6, C9, C0, C14, C5, C2, C4, C11, C13));
        $m!(112, (C4, C17, C3, C13, C7, C5, C0, C2, C14, C16, C9, C11, C19, C6));
        $m!(113, (C8, C19));
        $m!(114, (C11, C10, C12));
        $m!(115, (C2, C19, C8, C16));
        $m!(116, (C9, C6, C13, C1, C16));
        $m!(117, (C15, C13, C11, C2, C16, C3));
        $m!(118, (C13, C18, C7, C2, C15, C8, C9));
        $m!(119, (C15, C13, C12, C6, C1, C14, C9, C18));
        $m!(120, (C9, C13, C4, C19, C2, C7, C5, C18, C10));
        $m!(121, (C5, C9, C8, C1, C16, C18, C4, C0, C15, C6));
        $m!(122, (C2, C15, C13, C8, C1, C9, C19, C7, C11, C6, C0));
        $m!(123, (C18, C3, C2, C10, C5, C15, C7, C6, C19, C11, C1, C16));
        $m!(124, (C8, C2, C1, C9, C18, C11, C15, C0, C14, C7, C12, C13));
        $m!(125, (C17, C6, C9, C3, C0, C11, C13, C4, C19, C5, C12, C18, C2));
        $m!(126, (C11, C17, C0, C13, C16, C15, C7, C18, C8, C1, C5, C19, C2));
        $m!(127, (C4, C1, C12, C9, C15, C8, C14, C11, C7, C19, C6, C3, C17, C5));
        $m!(128, (C0, C7, C3, C2, C5, C15, C9, C10, C14, C18, C1, C17, C8, C6));
        $m!(129, (C20, C21));
        $m!(130, (C22, C1));
        $m!(131, (C21, C8, C20));
        $m!(132, (C25, C23));
        $m!(133, (C24, C22, C0));
        $m!(134, (C9, C24));
        $m!(135, (C25, C20, C21, C22, C23, C24));
        $m!(136, (C5, C22, C16, C25));
        $m!(137, (C23, C10, C21));
        $m!(138, C26);
        $m!(139, C27);
        $m!(140, C28);
        $m!(141, C29);
        $m!(142, C30);
        $m!(143, C31);
        $m!(144, (C10, C11, C3, C4, C17, C1, C6, C12));
        $m!(145, (C11, C12, C4, C10, C17, C6, C1, C3));
        $m!(146, (C1, C3, C4, C6, C10, C11, C12, C17));
        $m!(147, (C6, C19, C3, C11, C1, C18, C9, C17));
        $m!(148, (C6, C17, C19, C1, C9, C18, C11, C3));
        $m!(149, (C1, C3, C6, C9, C11, C17, C18, C19));
        $m!(150, (C1, C18, C17, C5, C2, C8, C13, C0, C6, C3, C9));
        $m!(151, (C3, C6, C1, C18, C17, C0, C9, C2, C13, C8, C5));
        $m!(152, (C0, C1, C2, C3, C5, C6, C8, C9, C13, C17, C18));
        $m!(153, (C4, C15, C13, C6, C11, C0, C18, C1, C2, C10, C5));
        $m!(154, (C10, C0, C18, C6, C11, C15, C5, C2, C1, C4, C13));
        $m!(155, (C0, C1, C2, C4, C5, C6, C10, C11, C13, C15, C18));
        $m!(156, (C28, C29, C26, C27));
        $m!(157, (C28, C27, C26, C29));
        $m!(158, (C26, C27, C28, C29));
        $m!(159, (C30, C31));
        $m!(160, (C31, C30));
        $m!(161, (C26, C27));
        $m!(162, (C28, C29, C26));
        $m!(163, (C5, C30));
        $m!(164, (C8, C31, C5));
        $m!(165, (C29, C28, C27, C26, C5));
        $m!(166, (C0, C0));
        $m!(167, (C1, C1));
        $m!(168, (C8, C8));
        $m!(169, (C5, C8, C5));
        $m!(170, (C1, C5, C5));
        $m!(171, (C9, C9, C9));
        $m!(172, (C0, C1, C5, C8, C0));
        $m!(173, (C13, C4, C7, C4));
        $m!(174, (C4, C10, C8, C8, C17, C15));
        $m!(175, (C6, C15, C8, C5, C12, C2, C14, C2));
        $m!(176, (C4, C14, C12, C3, C6, C9, C3, C1, C8));
        $m!(177, (C17, C4, C12, C14, C3, C19, C10, C8, C3, C11, C0));
        $m!(178, (C4, C16, C14, C11, C12, C3, C13, C6, C18, C19, C2, C19, C10));
        $m!(179, (C9, C2, C3, C15, C5, C19, C12, C8, C17, C13, C11, C4, C13, C0));
        $m!(180, (C11, C7, C11));
        $m!(181, (C7, C17, C19, C7));
        $m!(182, (C16, C1, C7, C9, C16));
        $m!(183, (C14, C3, C19, C8, C0, C14));
        $m!(184, (C18, C15, C8, C11, C7, C12, C18));
        $m!(185, (C18, C3, C1, C10, C12, C17, C14, C18));
        $m!(186, (C4, C18, C16, C14, C8, C7, C6, C10, C4));
        $m!(187, (C1, C10, C6, C19, C13, C0, C11, C18, C17, C1));
        $m!(188, (C13, C2, C18, C7, C16, C14, C8, C0, C3, C10, C13));
        $m!(189, (C6, C10, C1, C12, C5, C17, C14, C0, C3, C18, C7, C6));
        $m!(190, (C8, C16, C7, C0, C3, C15, C5, C4, C10, C18, C17, C6, C8));
        $m!(191, (C14, C7, C16, C2, C12, C11, C1, C10, C13, C9, C0, C19, C3, C14));
        $m!(192, (C11, C11, C4, C16));
        $m!(193, (C9, C18, C10, C10));
        $m!(194, (C5, C5, C19, C7, C15, C1, C3));
        $m!(195, (C5, C0, C7, C11, C15, C4, C4));
        $m!(196, (C17, C17, C13, C2, C18, C9, C15, C14, C16, C6, C10, C8));
        $m!(197, (C19, C7, C15, C13, C3, C6, C12, C2, C4, C18, C8, C8));
        $m!(198, (C4, C4, C5, C2, C9, C16, C10, C12, C3, C6, C19, C0, C14, C8));
        $m!(199, (C7, C12, C6, C15, C10, C14, C8, C18, C9, C2, C17, C0, C5, C5));
    };
}
