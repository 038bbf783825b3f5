"""Names of the program's own interfaces (declared in its headers), used as
the default vocabulary of events.  Everything else is looked through."""

LIB = """VSB_new VSB_new_auto VSB_clear VSB_setpos VSB_cat VSB_printf VSB_vprintf VSB_putc VSB_bcat VSB_cpy
VSB_bcpy VSB_trim VSB_error VSB_finish VSB_data VSB_len VSB_done VSB_delete VSB_destroy VSB_quote VSB_quote_pfx
VSB_indent VSB_newbuf VSB_tofile VSB_put_byte
VAS_Fail VLU_New VLU_Fd VLU_Destroy VLU_Feed VLU_Data VNUM_2bytes VNUM_duration VNUM VNUM_pct
be16dec be16enc be32dec be32enc be64dec be64enc le16dec le16enc le32dec le32enc le64dec le64enc
usage""".split()

API = """AardWARC_New AardWARC_ReadCache AardWARC_WriteCache
Config_Read Config_Get Config_Iter Config_Find
GetJob_New GetJob_Delete GetJob_Header GetJob_Iter GetJob_TotalLength GetJob_IsSegmented GetJob_Headers
Gzip_Vsb Gzip_AddAa Gzip_InitDeflate Gzip_ReadAa Gzip_WriteAa gzip_stitch_new gzip_stitch_feed gzip_stitch_fini
Header_New Header_Delete Header_Destroy Header_Clone Header_Len Header_Set Header_Serialize Header_Get_Id
Header_Get_Number Header_Set_Id Header_Set_Date Header_Set_Ref Header_Parse Header_Get
Ident_Create Ident_Set Digest2Ident
IDX_Insert IDX_Iter IDX_Resort IDX_Valid_Id
proto_in proto_out proto_send_msg proto_add_ev proto_del_ev proto_ctl_ev proto_dispatch_evs
SegJob_New SegJob_Feed SegJob_Commit SegJob_Abandon
Silo_Filename Silo_Iter
Rsilo_Open Rsilo_Close Rsilo_NextHeader Rsilo_ReadHeader Rsilo_ReadChunk Rsilo_BodyLen Rsilo_ReadGZChunk
Rsilo_Tell Rsilo_SkipCRNL
Wsilo_New Wsilo_Next Wsilo_GetSpace Wsilo_Store Wsilo_Finish Wsilo_Header Wsilo_Commit Wsilo_Install Wsilo_Abandon
Warcinfo_New call_main
main_audit main_byid main_cgi main_dumpindex main_filter main_get main_housekeeping main_info main_mksilo
main_rebuild main_reindex main_stevedore main_store main_stow main__testbytes""".split()


def opaque(look_through=()):
    return sorted(set(LIB + API) - set(look_through))
