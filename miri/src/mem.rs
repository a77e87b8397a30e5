//! Archives in memory, read with the library's own parsers.
use async_trait::async_trait;
use bytes::Bytes;
use std::collections::HashMap;
use std::io;
use std::sync::{Arc, Mutex};
use terminus_store::storage::archive::*;
use terminus_store::storage::consts::LayerFileEnum;

type Name = [u32; 5];

#[derive(Clone, Default)]
pub struct MemArchives {
    pub files: Arc<Mutex<HashMap<Name, Bytes>>>,
    rollups: Arc<Mutex<HashMap<Name, Name>>>,
}

fn gone() -> io::Error {
    io::Error::new(io::ErrorKind::NotFound, "no such layer")
}

impl MemArchives {
    fn bytes(&self, id: Name) -> io::Result<Bytes> {
        self.files.lock().unwrap().get(&id).cloned().ok_or_else(gone)
    }
    async fn header(&self, id: Name) -> io::Result<ArchiveHeader> {
        let b = self.bytes(id)?;
        ArchiveHeader::parse_from_reader(&mut &b[..]).await
    }
}

#[async_trait]
impl ArchiveBackend for MemArchives {
    type Read = io::Cursor<Vec<u8>>;
    async fn get_layer_bytes(&self, id: Name) -> io::Result<Bytes> {
        self.bytes(id)
    }
    async fn get_layer_structure_bytes(&self, id: Name, file: LayerFileEnum) -> io::Result<Option<Bytes>> {
        let b = self.bytes(id)?;
        let a = Archive::parse_from_reader(&mut &b[..]).await?;
        Ok(a.slice_for(file))
    }
    async fn store_layer_file(&self, id: Name, bytes: Bytes) -> io::Result<()> {
        self.files.lock().unwrap().insert(id, bytes);
        Ok(())
    }
    async fn read_layer_structure_bytes_from(&self, id: Name, file: LayerFileEnum, from: usize) -> io::Result<Self::Read> {
        let b = self.get_layer_structure_bytes(id, file).await?.ok_or_else(gone)?;
        Ok(io::Cursor::new(b[from..].to_vec()))
    }
}

#[async_trait]
impl ArchiveMetadataBackend for MemArchives {
    async fn get_layer_names(&self) -> io::Result<Vec<Name>> {
        Ok(self.files.lock().unwrap().keys().cloned().collect())
    }
    async fn layer_exists(&self, id: Name) -> io::Result<bool> {
        Ok(self.files.lock().unwrap().contains_key(&id))
    }
    async fn layer_size(&self, id: Name) -> io::Result<u64> {
        Ok(self.bytes(id)?.len() as u64)
    }
    async fn layer_file_exists(&self, id: Name, file: LayerFileEnum) -> io::Result<bool> {
        Ok(self.header(id).await?.range_for(file).is_some())
    }
    async fn get_layer_structure_size(&self, id: Name, file: LayerFileEnum) -> io::Result<usize> {
        self.header(id).await?.size_of(file).ok_or_else(gone)
    }
    async fn get_rollup(&self, id: Name) -> io::Result<Option<Name>> {
        Ok(self.rollups.lock().unwrap().get(&id).cloned())
    }
    async fn set_rollup(&self, id: Name, rollup: Name) -> io::Result<()> {
        self.rollups.lock().unwrap().insert(id, rollup);
        Ok(())
    }
    async fn get_parent(&self, id: Name) -> io::Result<Option<Name>> {
        let Some(b) = self.get_layer_structure_bytes(id, LayerFileEnum::Parent).await? else { return Ok(None) };
        let mut n = [0u32; 5];
        for (i, c) in b.chunks(8).take(5).enumerate() {
            n[i] = u32::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap();
        }
        Ok(Some(n))
    }
}
